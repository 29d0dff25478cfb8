#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))


SAMPLES = 'The tests check one sample file per format (fixtures) or one signature literal each; '
R = 'src/readers.rs'
L = 'src/lib.rs'

p('P01', 'The signature decides the format, the most specific one winning',
  'For every byte content of every length, without a specific reader the answer is the format of the first entry of the documented signature '
  'table (longest signatures first) all of whose parts lie within the file and its first 36,870 bytes and match; if there is none the answer is '
  'arbitrary binary data, and for an empty stream it is the empty format. No byte outside the signatures has any influence.',
  ['inputs'], 'all file contents and lengths up to 2^40',
  SAMPLES + 'they cannot show that no other content, length or signature overlap changes an answer.',
  ['src/signatures.rs', 'src/macros.rs', L],
  [('signature table and its order', 'src/signatures.rs signatures!'), ('matching within bounds', 'src/macros.rs signatures!'),
   ('detection window', 'src/lib.rs FileFormat::from_reader')])
p('P02', 'Readers only refine: an answer stays in the family of its signature',
  'Whatever the file, if its signature is that of a container format with an enabled reader, the answer is that container format, one of the '
  'formats documented as based on it, or the generic answer (plain text or arbitrary binary data). A reader never yields a format of another container.',
  ['inputs', 'configurations'], 'all contents of short files per container; all contents and lengths for signatures',
  SAMPLES + 'malformed containers are unbounded in number.', [R, L],
  [('dispatch by signature', 'src/readers.rs FileFormat::from_fmt_reader'), ('results of each reader', 'src/readers.rs from_*_reader')])
p('P03', 'Detection is total: no content makes it panic or fail',
  'For every content of every length, detection neither panics nor overflows nor indexes out of range, and on a stream that reports no error it returns a format, never an error.',
  ['inputs'], 'all contents of short files per container, all size, count and offset fields in longer ones',
  SAMPLES + 'overflows and panics need hostile size, count and offset fields that no fixture has.', [R, L, 'src/macros.rs'],
  [('arithmetic on sizes and offsets', 'src/readers.rs from_*_reader'), ('slices', 'src/macros.rs signatures!, src/readers.rs FindBytes'),
   ('errors of readers are absorbed', 'src/lib.rs FileFormat::from_reader')])
p('P04', 'Work and memory are bounded whatever the file claims',
  'One detection performs at most 100,000 calls on its stream, asks it for at most 256 MiB, always ends, and never makes a single allocation above 1 MiB, '
  'however long the stream is and whatever sizes, counts and offsets it claims.',
  ['inputs'], 'endless streams of records of each container; all values of size, count and offset fields',
  'Fixtures are small and honest; a limit that is missing shows only on hostile or endless files.', [R, L],
  [('limits on records', 'src/readers.rs *_LIMIT constants'), ('limits on buffers', 'src/readers.rs ReadData::read_bytes, read_string'),
   ('detection window', 'src/lib.rs FileFormat::from_reader')])
p('P05', 'All entry points agree on the same contents',
  'Detection from a byte slice (both ways), from a stream and from a file give the same format for the same contents, wherever in the file the decisive bytes lie; '
  'this includes media that cannot seek arbitrarily far past the end of the stream. A file that cannot be opened yields that error.',
  ['inputs'], 'samples of every container with arbitrary bytes, decisive bytes beyond the first 36,870; all 64-bit sizes of records',
  'The tests compare each entry point with a constant for single samples, never with each other.', [L, R],
  [('entry points', 'src/lib.rs from_bytes, from_file, from_reader, From<&[u8]>'), ('seeking', 'src/readers.rs from_asf_reader, from_ebml_reader, from_mp4_reader')])
p('P06', 'The answer does not depend on how the stream delivers its bytes',
  'A stream that returns fewer bytes than asked for, in any pattern, or is interrupted and then goes on, gets the same answer as one that delivers everything at once.',
  ['inputs', 'schedules'], 'patterns of full, short, halved and interrupted reads on samples of every container',
  'The tests only read whole files and slices, which never return short reads.', [L, R],
  [('filling buffers', 'src/readers.rs ReadData::read_up_to'), ('initial read', 'src/lib.rs FileFormat::from_reader')])
p('P07', 'I/O errors are reported at the start and contained afterwards',
  'If the stream fails while the initial bytes are read, that error is returned; if it fails later, once or for good, detection still returns a format: '
  'the generic answer for the stream as far as it can be read (arbitrary binary data if it cannot), never one decided on data that could not be read. It never panics.',
  ['fault_sequences', 'inputs'], 'each single stream call failing, once or from then on, with several kinds of error, on samples of every container',
  'No test injects an I/O error.', [L, R],
  [('error of the initial read', 'src/lib.rs FileFormat::from_reader'), ('fallback', 'src/lib.rs from_reader, src/readers.rs from_generic_reader')])
p('P08', 'A reader feature affects only its own container',
  'With any one reader enabled, all or none, a file whose signature belongs to no enabled reader gets exactly the answer of its signature, '
  'and a container whose reader is enabled is refined by that reader.',
  ['configurations', 'inputs'], 'each single reader, all and none; all contents and lengths without a signature of an enabled reader',
  'The tests run with one feature set at a time and single samples.', [R, L, 'Cargo.toml'],
  [('feature gates', 'src/readers.rs from_fmt_reader'), ('fallback', 'src/readers.rs from_generic_reader')])


def reader(id, title, statement, mech, text, files=(R,)):
    p(id, title, statement, ['inputs'], text, SAMPLES + 'records in other orders, sizes and numbers, truncations and near misses are not covered.', list(files), mech)


reader('P09', 'ASF: streams and DVR-MS descriptor decide',
       'Of the first 256 header objects (no more than the header announces), each found at the end of the previous one by its size, a video stream makes the file WMV, '
       'otherwise an audio stream WMA, otherwise it is ASF; a descriptor whose name begins with "DVR File Version" among the first 32 of an extended content description makes it DVR-MS at once. '
       'If the file ends before an object that is needed, the answer is generic.',
       [('object and descriptor loop', 'src/readers.rs from_asf_reader')], 'all sizes and types of an object; sequences of objects and descriptors; truncations')
reader('P10', 'CFB: the class identifier of the root entry decides',
       'The format of a compound file is the one its root entry\'s class identifier stands for, found through the sector shift and the directory sector number of the header; '
       'without a known identifier, a next directory entry named "MatOST" makes it a Works word processor document, one after it named "WksSSWorkBook" a Works spreadsheet, and otherwise it is a plain CFB file. If the file ends before, the answer is generic.',
       [('root entry and class identifiers', 'src/readers.rs from_cfb_reader')], 'all contents and lengths up to 2^40')
reader('P11', 'EBML: document type, codecs and stereo mode decide',
       'Elements are visited in file order, masters being entered, up to 256 of them, a cluster or the end: DocType webm makes the file WebM, one other than matroska EBML, a nonzero StereoMode MK3D; '
       'otherwise the codec identifiers V_, A_, S_ make it MKV, MKA or MKS in this order of preference. Identifiers and sizes have the variable length encoded in their first byte; invalid or truncated ones give the generic answer.',
       [('element loop', 'src/readers.rs from_ebml_reader')], 'all identifiers and sizes of an element; sequences of elements; truncations')
reader('P12', 'EXE: the new header and its characteristics decide',
       'An MZ file whose header at the offset stored at 60 is PE is a DLL if its characteristics have the DLL bit, otherwise PE; LE/LX and NE headers make it LE and NE; otherwise it is an MS-DOS executable, as is any file in which that offset lies beyond the end.',
       [('new header', 'src/readers.rs from_exe_reader')], 'all contents and lengths up to 2^40')
reader('P13', 'ID3v2: what follows the tags decides',
       'Up to 256 consecutive ID3v2 tags are skipped by their synchsafe size (plus footer if flagged); if "fLaC" follows, the file is FLAC, if an MPEG audio frame synchronisation follows, MP3, otherwise ID3v2. If the file ends there, the answer is generic.',
       [('tag loop and frame sync', 'src/readers.rs from_id3v2_reader')], 'all versions, flags and sizes of tags; truncations')
reader('P14', 'MP4: the handlers of its tracks decide',
       'Boxes are visited in file order (moov, trak and mdia are entered, others skipped by their 32- or 64-bit size), up to 256 of them or the end: a handler vide makes the file MP4 video, otherwise soun MP4 audio, '
       'otherwise sbtl, subt or text MP4 subtitles, otherwise it is plain MP4. If the file ends within a box header or handler, the answer is generic.',
       [('box loop', 'src/readers.rs from_mp4_reader')], 'all types and sizes of a box; sequences of boxes; truncations')
reader('P15', 'PDF: the Illustrator marker anywhere in the first 32 MiB decides',
       'A PDF file is an Illustrator artwork exactly if "AIPrivateData" occurs in the 32 MiB after its signature, at any place, including across the boundaries of the chunks it is read in.',
       [('chunked search', 'src/readers.rs from_pdf_reader'), ('substring search', 'src/readers.rs FindBytes::find')], 'placements of the marker and near misses; all contents of windows')
reader('P16', 'RM: the MIME types of its streams decide',
       'Of the first 64 chunks (one less than the header announces), each found at the end of the previous one by its size, a media properties chunk with a MIME type beginning with video/ makes the file RealVideo, '
       'otherwise one with audio/ RealAudio, otherwise it is RealMedia. If the file ends before a chunk that is announced, the answer is generic.',
       [('chunk loop', 'src/readers.rs from_rm_reader')], 'all types and sizes of a chunk; sequences of chunks; truncations')
reader('P17', 'SQLite: the Sketch marker in the first 32 KiB after the header decides',
       'A SQLite 3 file is a Sketch file exactly if "com.bohemiancoding.sketch3" occurs in the 32,768 bytes from offset 100 on.',
       [('search', 'src/readers.rs from_sqlite3_reader'), ('substring search', 'src/readers.rs FindBytes::find')], 'placements of the marker and near misses; all contents of windows')
reader('P18', 'TXT: well-formed UTF-8 without control characters is plain text',
       'A file without a known signature is plain text exactly if its first 16 lines, as far as they lie in its first 65,536 bytes, are well-formed UTF-8 and contain no control character that is not white space; '
       'a character cut off by the 65,536 limit is ignored, one cut off by the end of the file is not. Otherwise it is arbitrary binary data.',
       [('line loop', 'src/readers.rs from_txt_reader')], 'all contents of windows at the start, buffer and limit boundaries; line counts')
reader('P19', 'XML: the first documented root marker present decides',
       'An XML file is of the first format, in documented order, whose marker (or both of whose markers, where two are documented) occurs in the 8,192 bytes after the signature, wherever it lies there; otherwise it is XML.',
       [('markers', 'src/readers.rs from_xml_reader'), ('substring search', 'src/readers.rs FindBytes::find')], 'each marker and near misses, pairs of markers, all contents of windows')
reader('P20', 'ZIP: the directory entries and the media type decide',
       'The last end-of-directory record in the final 65,557 bytes (or the ZIP64 record its locator points to) gives the entries; visited in order, up to 1,024, the first whose name has a documented meaning, or a stored mimetype entry, decides, a manifest meaning JAR unless a later entry decides, '
       'and otherwise the file is ZIP. If the record or an announced entry is missing or truncated, the answer is generic.',
       [('record and locator', 'src/readers.rs from_zip_reader'), ('entry names', 'src/readers.rs from_zip_reader'), ('last occurrence', 'src/readers.rs FindBytes::rfind')],
       'all offsets and counts of the record; names, near misses and orders of entries; media types; truncations')
p('P21', 'Without signature, or when a reader gives up, the generic answer applies',
  'A nonempty file that matches no signature, and a file whose reader cannot make sense of it, are plain text if the text reader is enabled and accepts the whole file from its beginning, and arbitrary binary data otherwise; an empty file is always the empty format.',
  ['inputs', 'configurations'], 'all short prefixes of containers that are text; all files of up to three bytes; with and without the text reader',
  SAMPLES + 'no fixture is a broken container.', [L, R],
  [('fallback', 'src/lib.rs from_reader, src/readers.rs from_generic_reader'), ('empty', 'src/lib.rs from_reader')])

p('P22', 'What is said about a format is what is documented, unique and well formed',
  'For every format: name, short name and kind are those listed in README.md, media type and extension those documented on the variant; the name is '
  'nonempty and belongs to no other format, the media type is a well-formed RFC 6838 type, the extension is nonempty; Display writes exactly the name '
  'and passes a failure to write on; formats are equal exactly if they are the same; the default is arbitrary binary data.',
  ['inputs'], 'all formats, all pairs of formats',
  'The tests look at the information on a handful of formats only.', ['src/formats.rs', 'src/macros.rs', L],
  [('information on formats', 'src/formats.rs formats!'), ('accessors', 'src/macros.rs formats!'), ('Display, Default', 'src/lib.rs')])

p('P23', 'Detections do not influence each other',
  'The answer for a file is the same whatever was detected before it, in whatever order, and whether or not those detections failed: the library keeps no state.',
  ['histories', 'inputs'], 'all pairs of samples and of short files, a failed detection in between',
  'Every test detects its own file once.', [L, R, 'src/signatures.rs'], [('no state', 'src/lib.rs FileFormat::from_reader')])

with open(HERE + '/properties.jsonl', 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')

NOTE = ('Every path of the compiled code within the stated bounds is executed symbolically and every assertion decided by an SMT solver; sampled paths '
        'and every counterexample are replayed natively. Trusts the executor (cross-checked by the replays), z3, rustc\'s IR and the reference model; '
        'bounds, what is outside and anything undecided are in the evidence.')
M = dict(version=1, setup_cmd='python3 check.py --setup',
         checks=[dict(property=x['id'], quick_cmd='python3 check.py %s quick' % x['id'], thorough_cmd='python3 check.py %s thorough' % x['id'],
                      technique='symbolic execution of the LLVM IR of the real code with an SMT solver (z3)', level='model_checking', level_note=NOTE)
                 for x in P],
         not_applicable=[],
         notes='DESIGN.md describes the executor, the reference model, the bounds and the findings. No hooks in /repo.')
# the tables of DESIGN.md
import re, sys
sys.path.insert(0, HERE); sys.dont_write_bytecode = True
from regimes import PROPERTIES
t = ''
for x in P:
    t += '\n**%s**\n\n' % x['id']
    for r in PROPERTIES[x['id']]['regimes']:
        t += '* `%s`%s: %s%s\n' % (r['harness'], '' if r['module'] == 'notxt' else ' [%s]' % r['module'], r['bounds'], ' (thorough)' if r.get('thorough') else '')
    t += '* outside: %s\n' % PROPERTIES[x['id']]['outside']
b = '| bug | property | what it breaks | caught by |\n|---|---|---|---|\n'
caught = json.load(open(HERE + '/tools/caught.json'))
for i in sorted(os.listdir(HERE + '/seeded')):
    m = json.load(open(HERE + '/seeded/%s/meta.json' % i))
    b += '| %s | %s | %s | %s |\n' % (i, m['property'], m['what_it_breaks'].replace('|', '/'), caught.get(i, '?'))
d = open(HERE + '/DESIGN.md').read()
for k, v in (('regimes', t), ('seeded', b)):
    d = re.sub('<!-- %s -->.*<!-- /%s -->' % (k, k), lambda _: '<!-- %s -->\n%s<!-- /%s -->' % (k, v, k), d, flags=re.S)
open(HERE + '/DESIGN.md', 'w').write(d)

with open(HERE + '/MANIFEST.json', 'w') as f:
    json.dump(M, f, indent=1)
    f.write('\n')
