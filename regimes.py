"""Properties, and the regimes that decide them."""

ASSUMPTIONS = [
    'LLVM IR of the stable toolchain (opt-level 1, overflow checks, debug assertions, panic=abort) stands for the compiled code',
    'allocation succeeds; the memory allocator, memcpy/memcmp intrinsics and panic entry points are modelled by the executor',
    '`{:02x}` of a byte is replaced by an equivalent function (h_hex_stub decides the equivalence for all 256 bytes)',
    'the committed reference (harness/src/spec.rs, tables.rs) states the intended behaviour',
    'z3 answers are correct; sampled models are replayed natively',
]


def R(harness, bounds, module='notxt', **k):
    return dict(harness=harness, bounds=bounds, module=module, **k)


READER = dict(asserts=('eq:', 'ok:'), kinds=('panic',))
PROPERTIES = {}


def prop(pid, regimes, outside, base=READER, **k):
    PROPERTIES[pid] = dict(base, regimes=regimes, outside=outside, **k)





# ---------------------------------------------------------------- signatures
prop('P01', [
    R('sig_any', 'any contents, any length up to 2^40; every reader off', module='none', cost=10),
    R('sig_text', 'any contents, any length up to 2^40, that match a signature; only the TXT reader', module='txt', cost=10),
], 'files longer than 2^40 bytes')

# ---------------------------------------------------------------- the system as a whole
WILD = [
    R('wild_asf', 'any file of 30, 53, 54, 60 or 70 bytes with the ASF signature and one object', cost=25),
    R('wild_asf_24', 'any file of 16..30 bytes with the ASF signature', cost=1),
    R('wild_cfb', 'any file of 8..80 bytes with the CFB signature', cost=6),
    R('wild_ebml', 'any file of 4..9 bytes with the EBML signature', cost=3),
    R('wild_ebml_11', 'any file of 10 or 11 bytes with the EBML signature', cost=36),
    R('wild_exe', 'any file of 2, 3, 30, 63, 64 or 65 bytes with the MZ signature', cost=6),
    R('wild_exe_90', 'any file of 90 bytes with the MZ signature', cost=8),
    R('wild_id3', 'any file of 3..14 bytes with the ID3 signature', cost=2),
    R('wild_id3_24', 'any file of 20 or 24 bytes with the ID3 signature', cost=4),
    R('wild_mp4', 'any file of 12, 16, 20 or 24 bytes with an MP4 signature', cost=6),
    R('wild_mp4_28', 'any file of 28 bytes with an MP4 signature', cost=60),
    R('wild_rm', 'any file of 18, 26, 40 or 60 bytes with the RM signature and two headers', cost=2),
    R('wild_rm_17', 'any file of 8..18 bytes with the RM signature', cost=1),
    R('wild_rm_68', 'any file of 68 bytes with the RM signature and two headers', cost=2),
    R('wild_pdf', 'any file of 5..80 bytes with the PDF signature', cost=20),
    R('wild_sql', 'any file of 14, 99..101, 125, 126 or 180 bytes with the SQLite signature', cost=2),
    R('wild_xml', 'any file of 5, 6, 9, 16, 30 or 40 bytes with the XML signature', cost=10),
    R('wild_zip', 'any file of 4..21 bytes with the ZIP signature', cost=3),
    R('wild_txt', 'any file of 2..6 bytes that begins with "zz"', module='txt', cost=3),
]
LARGE = [
    R('asf_step', 'any ASF object size and type; lengths 70 and 2^40', cost=2),
    R('mp4_step', 'any size of the first MP4 box', cost=40),
    R('rm_step', 'any RM chunk, any length', cost=24),
    R('exe_any', 'any MZ file of any length up to 2^40', cost=10),
    R('cfb_any', 'any CFB file of any length up to 2^40', cost=60),
    R('id3_second', 'any sizes of two ID3v2 tags', cost=5),
    R('ebml_step', 'any EBML element', cost=11),
    R('zip_wide_record', 'any ZIP64 number of entries and offset', cost=12),
    R('zip_record', 'any number of ZIP entries and offset', cost=36),
    R('zip_stored', 'any sizes of the mimetype entry', cost=1),
    R('zip_locator', 'ZIP64 locator that does not fit', cost=1),
    R('zip_none', 'ZIP files without a record', cost=4),
    R('zip_type_limit', 'media types up to 2^32-1 bytes', cost=2),
    R('zip_name_length', 'names up to 65,535 bytes', cost=1),
]
ENDLESS = [
    R('endless_asf', '2^40 bytes of ASF objects without end', cost=10),
    R('endless_asf_descriptors', '2^40 bytes of ASF descriptors without end', cost=4),
    R('endless_ebml', '2^40 bytes of EBML elements without end', cost=1),
    R('endless_id3', '2^40 bytes of ID3v2 tags without end', cost=1),
    R('endless_mp4', '2^40 bytes of MP4 boxes without end, or one that ends where it begins', cost=2),
    R('endless_rm', '2^40 bytes of RM chunks without end, or one that ends where it begins', cost=2),
    R('endless_zip', '2^40 bytes of ZIP entries without end', cost=5),
    R('endless_pdf', '2^40 bytes of PDF without marker', cost=40, deadline=420),
    R('endless_sql', '2^40 bytes of SQLite without marker', cost=1),
    R('endless_xml', '2^40 bytes of XML without marker', cost=1),
    R('endless_txt', '2^40 bytes of text, with and without lines', module='txt', cost=2),
]
ALONE = ('id3_chain', 'ebml_codec', 'asf_name', 'cfb_any', 'mp4_handler', 'rm_mime', 'sql_marker', 'xml_markers', 'zip_names')
CONTAINERS = ['asf', 'cfb', 'ebml', 'exe', 'id3v2', 'mp4', 'pdf', 'rm', 'sqlite3', 'xml', 'zip']

prop('P02', WILD + [
    R('sig_any', 'any contents, any length up to 2^40; every reader off', module='none', cost=10),
] + [R('agree_' + c, 'samples of the container', cost=2) for c in CONTAINERS],
    'longer files: answers of the readers beyond the regimes of P09-P20',
    base=dict(asserts=('ref:', 'eq:'), kinds=()))

prop('P03', WILD + LARGE + [
    R('id3_jump', 'one ID3v2 tag of any version, flags and size', cost=24),
    R('mp4_second_wide', 'second MP4 box of any 64-bit size', cost=35),
    R('txt_start', 'text with five arbitrary bytes, truncated at every length', module='txt', cost=35),
], 'longer files with arbitrary contents throughout', base=dict(asserts=('ok:',), kinds=('panic',)))

prop('P04', ENDLESS + LARGE + [
    R('wild_sql', 'any file of up to 180 bytes with the SQLite signature', cost=2),
    R('mp4_second_wide', 'second MP4 box of any 64-bit size', cost=35),
    R('ebml_huge', 'DocType, codec identifier and StereoMode of any 56-bit size', cost=10),
], 'other streams; memory other than single allocations', base=dict(asserts=('bound:',), kinds=('alloc',)))

SHORT = {'asf': '16..30', 'cfb': '8..80', 'ebml': '4..8', 'exe': '2, 30, 63, 64, 65 or 90', 'id3': '3..14', 'mp4': '12..19', 'rm': '8..18',
         'pdf': '5, 18 or 24', 'sql': '16, 99..101, 125 or 126', 'xml': '5, 6 or 9', 'zip': '4..21'}
LONGER = dict(SHORT, ebml='4..9', exe='2, 3, 30, 63, 64, 65 or 90', mp4='12..20', pdf='5..40', xml='5, 6, 9, 12 or 16')
COST = {'entry_ebml': 15, 'entry_exe': 6, 'entry_mp4': 5, 'entry_pdf': 10, 'entry_xml': 17, 'chunk_cfb': 10, 'chunk_ebml': 14, 'chunk_exe': 40,
        'chunk_id3': 11, 'chunk_xml': 18, 'fault_cfb': 7, 'fault_ebml': 10, 'fault_exe': 11}


def shorts(kind, sizes, any_txt, txt):
    return [R('%s_wild_%s' % (kind, c), 'the same for any file of %s bytes with the signature (%s)' % (n, c), cost=COST.get('%s_%s' % (kind, c), 3))
            for c, n in sizes.items()] + [
        R(kind + '_wild_any', 'the same for any file of up to 7 bytes', cost=8),
        R(kind + '_wild_any', 'the same for any file of up to %d bytes, with the TXT reader' % any_txt, module='txt', cost=6 if kind != 'fault' else 35),
        R(kind + '_wild_txt', 'the same for any file of 2..%d bytes that begins with "zz", with the TXT reader' % txt, module='txt', cost=25 if kind != 'chunk' else 8)]


prop('P05', [R('entry_' + c, 'samples of the container, in memory, as a stream and as a file', cost=3) for c in CONTAINERS] + [
    R('entry_far_' + c, 'samples of the container whose decisive bytes lie 20 MB into the file (PDF: 1 MB)', cost=10 if c == 'pdf' else 1)
    for c in CONTAINERS if c != 'xml'] + [
    R('entry_sig', 'samples of other signatures, empty and short files', cost=1),
    R('entry_txt', 'samples of text', module='txt', cost=4),
    R('entry_name', 'six kinds of file under sixteen kinds of name', cost=1),
    R('entry_missing', 'a file that does not exist', cost=1),
    R('entry_directory', 'a directory', cost=1),
    R('medium_asf', 'ASF objects of any 64-bit size on media that cannot seek far past their end', cost=45),
    R('medium_ebml', 'EBML elements of any 56-bit size on such media', cost=5),
    R('medium_mp4', 'MP4 boxes of any 64-bit size on such media', cost=8),
] + shorts('entry', LONGER, 3, 6), 'files other than those; devices and pipes', base=dict(asserts=('entry:', 'ok:'), kinds=('panic',)))

prop('P06', [R('chunk_' + c, 'two consecutive reads among the first seven short, halved or interrupted; the others full, of at most 1000 bytes, or interrupted every other time',
               cost={'pdf': 29, 'xml': 34, 'zip': 29}.get(c, 6)) for c in CONTAINERS] + [
    R('chunk_sig', 'the same for other signatures', cost=2),
    R('chunk_txt', 'the same for text', module='txt', cost=107),
] + [R('drip_' + c, 'after the first seek all reads of at most 1, 3 or 17 bytes, with and without interruptions',
          cost={'pdf': 7, 'sqlite3': 7, 'zip': 69}.get(c, 1)) for c in CONTAINERS + ['sig']] + [
    R('drip_txt', 'the same for text', module='txt', cost=31),
] + [R('late_' + c, 'three consecutive reads among the first eighteen disturbed', cost=100, deadline=700, thorough=True) for c in CONTAINERS + ['sig']] + [
    R('late_txt', 'the same for text', module='txt', cost=700, deadline=700, thorough=True),
] + shorts('chunk', SHORT, 2, 4), 'streams other than those; other disturbances after the eighth read (thorough: nineteenth)', base=dict(asserts=('chunk:', 'ok:'), kinds=('panic',)))

prop('P07', [R('fault_' + c, 'failure of each single stream call, once or from then on, with eighteen kinds of error', cost={'zip': 66, 'ebml': 28, 'mp4': 30}.get(c, 12)) for c in CONTAINERS] + [
    R('fault_sig', 'the same for other signatures', cost=3),
    R('fault_sig', 'the same with four kinds of error and the TXT reader', module='txt', cost=60),
    R('fault_txt', 'the same for text', module='txt', cost=20),
] + shorts('fault', SHORT, 2, 4), 'streams other than those', base=dict(asserts=('fault:', 'ok:'), kinds=('panic',)))

SIG_OTHER = dict(cost=40, deadline=300, opts={'solver-timeout': 150000})
prop('P08', [R('sig_other', 'any contents, any length up to 2^40, whose signature is of no enabled reader', module=m, **SIG_OTHER)
             for m in CONTAINERS + ['txt', 'notxt']] +
     [R('agree_' + c, 'samples of the container', module=m, cost=2) for m in CONTAINERS + ['none'] for c in CONTAINERS] +
     [R('agree_txt', 'samples of text, some of which begin like a container', module=m, cost=3) for m in CONTAINERS + ['txt', 'none', 'notxt', 'all']],
     'combinations of several readers other than all of them', base=dict(asserts=('eq:',), kinds=('panic',)))

prop('P21', [
    R('agree_txt', 'samples of text, some of which begin like a container', module='all', cost=3),
    R('fall_id3', 'text that begins with an ID3v2 tag, any five bytes', module='all', cost=10),
    R('fall_exe', 'text that begins with MZ, any bytes', module='all', cost=10),
    R('fall_mp4', 'text that begins with an MP4 box, any bytes', module='all', cost=10),
    R('fall_zip', 'a ZIP archive that cannot be read', module='all', cost=10),
    R('fall_rm', 'a RealMedia file that ends early', module='all', cost=10),
    R('fall_none', 'any file of up to three bytes', module='all', cost=10),
    R('fall_after', 'text and any two bytes', module='all', cost=10),
    R('fall_id3', 'text that begins with an ID3v2 tag; no TXT reader', cost=10),
    R('fall_exe', 'text that begins with MZ; no TXT reader', cost=10),
    R('fall_none', 'any file of up to three bytes; no TXT reader', module='notxt', cost=10),
], 'longer prefixes', base=dict(asserts=('eq:', 'ok:'), kinds=('panic',)))

META = dict(module='none', opts={'concretize-limit': 1000})
prop('P22', [
    R('meta_entry', 'every format', cost=3, **META),
    R('meta_display', 'every format', cost=3, **META),
    R('meta_sink', 'every format; a sink that takes up to four bytes', cost=10, **META),
    R('meta_eq', 'every pair of formats', cost=1, **META),
    R('meta_unique', 'every pair of formats', cost=5, **META),
], 'formatting options', base=dict(asserts=('meta:',), kinds=('panic',)))

prop('P23', [
    R('hist_samples', 'any two samples, the first of one of seven containers', cost=53),
    R('hist_samples_more', 'any two samples, the first of one of six others', cost=73),
    R('hist_error', 'a sample, 1 or 20 streams that fail, the sample again', cost=4),
    R('hist_often', 'a sample 40 times', cost=8),
    R('hist_often_more', 'a sample of PDF, SQLite, XML or text six times', cost=2),
    R('hist_often_sig', 'a sample of another signature 300 times', cost=5),
    R('hist_any', 'any two files of the same length of 1 to 7 bytes', cost=30),
    R('hist_any', 'any two files of 1 or 2 bytes, with the TXT reader', module='txt', cost=10),
    R('hist_exe', 'any two files of 70 bytes with the MZ signature', cost=6),
    R('hist_id3', 'any two files of 12 or 14 bytes with the ID3 signature', cost=2),
    R('hist_cfb', 'any two files of 80 bytes with the CFB signature', cost=1),
    R('hist_xml', 'any two files of 9 bytes with the XML signature', cost=8),
    R('hist_pdf', 'any two files of 20 bytes with the PDF signature', cost=1),
    R('hist_zip', 'any two files of 21 bytes with the ZIP signature', cost=1),
    R('hist_txt', 'any two texts of 4 bytes that begin with "zz"', module='txt', cost=25),
], 'longer histories; several threads', base=dict(asserts=('hist:', 'ok:'), kinds=('panic',)))

# ---------------------------------------------------------------- readers
prop('P09', [
    R('h_hex_stub', 'every byte: the modelled `{:02x}` equals the real one', cost=1, asserts=('stub:',)),
    R('asf_step', 'one header object: any GUID, any 64-bit size, any contents; object count 0 or 1', cost=2),
    R('asf_jump', 'first object of any size 0..4000, then a video stream object at a fixed place', cost=40),
    R('asf_chain', 'two objects out of six kinds; count 1..3; sizes consistent', cost=60),
    R('asf_cut', 'two objects, file truncated at every length', cost=16),
    R('asf_types', 'stream type GUIDs, any one byte changed', cost=1),
    R('asf_guids', 'object GUIDs, any one byte changed', cost=2),
    R('asf_name', 'descriptor name length out of eleven, name with any one byte changed', cost=35),
    R('asf_name_any', 'descriptor names of arbitrary bytes, eight lengths up to 70 bytes', cost=1),
    R('asf_descriptors', 'descriptor list: counts 0..3, seven name lengths up to 40,000, four value lengths', cost=25),
    R('asf_descriptor_limit', '30..33 descriptors before the decisive one, any count', cost=4),
    R('asf_object_limit', '254..257 objects before the stream, six counts', cost=9),
    R('fields_asf', 'two objects out of six kinds, arbitrary bytes in every other field', cost=2),
    R('far_asf', 'the decisive record beyond an object of eight or fewer sizes up to 2^39', cost=2),
    R('seq_asf', 'four objects out of six kinds, as real files have them', cost=9),
    R('asf_chain_deep', 'three objects out of six kinds; count 2..4', cost=600, deadline=600, thorough=True),
], 'sequences of more than three arbitrary objects; descriptor names other than those listed')

prop('P10', [
    R('h_hex_stub', 'every byte: the modelled `{:02x}` equals the real one', cost=1, asserts=('stub:',)),
    R('cfb_any', 'any contents after the magic number, any length up to 2^40', cost=60),
], 'files longer than 2^40 bytes')

prop('P11', [
    R('ebml_step', 'first element after the header: any identifier and size of up to four bytes, eight-byte sizes', cost=11),
    R('ebml_cut', 'first element truncated at every length 4..12', cost=3),
    R('ebml_doctype', 'DocType element of every size up to two bytes, first bytes of the data arbitrary', cost=36),
    R('ebml_codec', 'codec identifiers of several sizes, first bytes arbitrary', cost=42),
    R('ebml_doctype_any', 'DocTypes of 1..12 arbitrary bytes', cost=1),
    R('ebml_codec_any', 'codec identifiers of arbitrary bytes, eight sizes up to 70', cost=1),
    R('ebml_stereo', 'StereoMode of several sizes with some non-NUL byte, any truncation', cost=6),
    R('ebml_chain', 'up to two elements out of seven kinds, truncated near the end', cost=56),
    R('ebml_huge', 'DocType, codec identifier and StereoMode of any 56-bit size', cost=10),
    R('ebml_sizes', 'sizes and identifiers in every number of bytes', cost=1),
    R('ebml_limit', '254..257 elements before the decisive one', cost=1),
    R('fields_ebml', 'two tracks out of four codecs, with and without StereoMode, arbitrary bytes in every other field', cost=4),
    R('far_ebml', 'the decisive record beyond an element of eight or fewer sizes up to 2^39', cost=1),
    R('seq_ebml', 'three tracks out of four codecs, with and without StereoMode, in a real header', cost=7),
], 'sequences of more than two arbitrary elements')

prop('P12', [
    R('exe_any', 'any contents with MZ or ZM and a NUL at offset 4, any length up to 2^40', cost=10),
], 'files longer than 2^40 bytes; a non-NUL byte at offset 4 (other signatures; P01)')

prop('P13', [
    R('id3_jump', 'one tag of any version, flags and size; the stream at a fixed place', cost=24),
    R('id3_second', 'two tags of any version, flags and size, the second at a fixed place', cost=5),
    R('id3_cut', 'tag and stream truncated at every length', cost=80),
    R('id3_chain', 'up to three tags of several sizes, then any stream start', cost=32),
    R('id3_limit', '255..257 tags', cost=2),
    R('fields_id3', 'two tags out of twelve kinds, before three streams, arbitrary bytes in every other field', cost=28),
    R('far_id3', 'the decisive record beyond a tag of eight or fewer sizes up to 2^28-1', cost=3),
    R('seq_id3', 'three tags out of twelve kinds, before three streams', cost=17),
], 'more than three tags of arbitrary sizes')

prop('P14', [
    R('mp4_step', 'first box of any 32- or 64-bit size, any length up to 2^33', cost=40),
    R('mp4_second', 'second box of any type and 32-bit size', cost=17),
    R('mp4_second_wide', 'second box of any type and 64-bit size', cost=35),
    R('mp4_handler', 'handler box of any size and handler type', cost=21),
    R('mp4_handler_wide', 'the same with a 64-bit size', cost=41),
    R('mp4_jump', 'second box of any size, then a handler at a fixed place', cost=4),
    R('mp4_enter', 'containers with 64-bit sizes, any truncation', cost=12),
    R('mp4_types', 'box and handler types, any one byte changed', cost=1),
    R('mp4_chain', 'up to two boxes out of six kinds', cost=11),
    R('mp4_cut', 'containers and handler truncated at every length', cost=29),
    R('mp4_limit', '254..257 boxes before the handler', cost=1),
    R('fields_mp4', 'two tracks out of six kinds, arbitrary bytes in every other field', cost=1),
    R('far_mp4', 'the decisive record beyond a box of eight or fewer sizes up to 2^39', cost=3),
    R('seq_mp4', 'three tracks out of six kinds, as real files have them', cost=12),
    R('seq_mp4_deep', 'four tracks', cost=60, thorough=True),
], 'sequences of more than three arbitrary boxes')

prop('P15', [
    R('pdf_start', '64 arbitrary bytes after the signature, truncated at every length 6..69; NUL elsewhere', cost=14),
    R('pdf_boundary', '64 arbitrary bytes across the first two chunk boundaries (32,768 bytes); NUL elsewhere', cost=2),
    R('pdf_end', '40 arbitrary bytes around a chunk boundary, file ending there', cost=5),
    R('pdf_marker', 'the marker with any one byte changed, at each place around a chunk boundary', cost=18),
    R('pdf_restart', 'the marker after each of its own beginnings', cost=44),
    R('pdf_limit_in', 'the marker as the last bytes of the first 32 MiB', cost=40),
    R('pdf_limit_out', 'the marker one byte beyond', cost=40),
    R('pdf_limit', 'the marker at other places around the 32 MiB limit', cost=200, deadline=600, thorough=True),
    R('pdf_limit_blur', 'the marker with any one byte changed around the 32 MiB limit', cost=900, deadline=600, thorough=True),
], 'other placements of the marker (quick: beyond the first three chunks)')

prop('P16', [
    R('rm_step', 'one chunk of any type and size, any contents, any length up to 2^40', cost=24),
    R('rm_jump', 'first chunk of any size 0..3000, then a stream at a fixed place', cost=6),
    R('rm_mime', 'stream names and MIME types of several lengths, any one byte of the type changed', cost=36),
    R('rm_mime_any', 'MIME types of 1..40 arbitrary bytes', cost=2),
    R('rm_types', 'chunk type, any one byte changed', cost=1),
    R('rm_chain', 'two chunks out of three kinds, 0..4 headers', cost=16),
    R('rm_count', 'any 32-bit number of headers', cost=1),
    R('rm_cut', 'two chunks truncated at every length', cost=38),
    R('rm_limit', '62..65 chunks before the stream, six counts', cost=1),
    R('fields_rm', 'two chunks out of five kinds, arbitrary bytes in every other field', cost=1),
    R('far_rm', 'the decisive record beyond a chunk of eight or fewer sizes up to 2^32-1', cost=2),
    R('seq_rm', 'four chunks out of five kinds, as real files have them', cost=3),
], 'sequences of more than two arbitrary chunks')

prop('P17', [
    R('sql_start', '64 arbitrary bytes at the start of the searched region, seven file lengths', cost=2),
    R('sql_end', '64 arbitrary bytes at the end of the searched region, three file lengths', cost=2),
    R('sql_marker', 'the marker with any one byte changed, at places near both ends', cost=20),
    R('sql_restart', 'the marker after each of its own beginnings and ends', cost=8),
    R('fields_sql', 'the marker with any one byte changed, arbitrary header', cost=4),
    R('sql_cut', '30 arbitrary bytes, truncated at every length 14..140', cost=4),
], 'arbitrary bytes outside the windows (NUL there)')

prop('P18', [
    R('txt_start', 'five arbitrary bytes at the start, truncated at every length 1..10', module='txt', cost=35),
    R('txt_any', 'any four bytes within text', module='txt', cost=23),
    R('txt_sequence', 'each lead byte and any four bytes', module='txt', cost=23),
    R('txt_limit_1', 'each lead byte 1 byte before the read limit and one arbitrary byte', module='txt', cost=60),
    R('txt_limit_2', 'each lead byte 2 bytes before the read limit and one arbitrary byte', module='txt', cost=60),
    R('txt_limit_3', 'each lead byte 3 bytes before the read limit and one arbitrary byte', module='txt', cost=60),
    R('txt_limit_any', 'any two bytes at the read limit, file ending there or later', module='txt', cost=90, thorough=True),
    R('txt_limit_past', 'any two bytes across the read limit', module='txt', cost=16),
    R('txt_limit_short', 'any two bytes, file ending just before the read limit', module='txt', cost=47),
    R('txt_limit_deep', 'any four bytes around the read limit', module='txt', cost=900, deadline=900, thorough=True),
    R('txt_buffer', 'any three bytes at the end of the 8 KiB buffer', module='txt', cost=61),
    R('txt_lines', 'any four bytes after 13..17 lines', module='txt', cost=46),
    R('txt_place', 'any byte at each of 26 places', module='txt', cost=23),
    R('txt_long', 'four lines of 10 or 9000 bytes, then any byte', module='txt', cost=33),
], 'arbitrary bytes elsewhere (lowercase letters there)')

prop('P19', [
    R('xml_start', '14 arbitrary bytes at the start', cost=13),
    R('xml_wide', '18 visible characters after the declaration', cost=32),
    R('xml_end', '14 arbitrary bytes at the end of the searched region', cost=8),
    R('xml_markers', 'each marker with any one byte changed', cost=37),
    R('xml_pairs', 'any two markers in any order', cost=66),
    R('xml_both', 'formats that need two markers, any one byte of either changed', cost=36),
    R('xml_context', 'each marker after six arbitrary bytes, with and without BOM', cost=29),
    R('xml_cut', 'each marker at the end of the searched region and of the file', cost=52),
    R('xml_short', '12 arbitrary bytes, truncated at every length', cost=22),
], 'arbitrary bytes outside the windows (NUL there)')

prop('P20', [
    R('zip_eocd', 'record followed by six arbitrary bytes, truncated at every length', cost=1),
    R('zip_around', 'arbitrary bytes before and after the record', cost=1),
    R('zip_far', 'record at the far end of the searched region', cost=1),
    R('zip_none', 'no record, or files shorter than one', cost=4),
    R('zip_record', 'any number of entries, any offset', cost=36),
    R('zip_wide', 'ZIP64 locator: any one byte of the offset', cost=7),
    R('zip_wide_mark', 'ZIP64 locator signature, any one byte changed', cost=1),
    R('zip_wide_record', 'ZIP64 record: any 64-bit number of entries and offset', cost=12),
    R('zip_locator', 'locator that does not fit before the record', cost=1),
    R('zip_name', 'entry names of up to three arbitrary bytes', cost=4),
    R('zip_names', 'each decisive name, any one byte changed', cost=20),
    R('zip_fields', 'entries with arbitrary bytes in every other field of headers and record', cost=3),
    R('zip_lengths', 'each decisive name, one byte longer or shorter', cost=3),
    R('zip_rules', 'each rule on beginning and end, any one byte changed', cost=11),
    R('zip_rules_wide', 'the same with an arbitrary byte before, between or after', cost=14),
    R('zip_rules_both', 'names that satisfy two rules', cost=9),
    R('zip_ascii', 'any ASCII entry name of 4..14 characters', cost=3),
    R('zip_ascii_wide', 'any ASCII entry name of 16, 18, 20, 24 or 28 characters', cost=32),
    R('zip_ascii_deep', 'any ASCII entry name of 4..40 characters', cost=900, deadline=900, thorough=True),
    R('zip_type_ascii', 'any ASCII media type of 1..36 characters without white space', cost=14),
    R('zip_type_ascii_more', 'any ASCII media type of 37, 40, 43, 46, 50, 62 or 73 characters without white space', cost=31),
    R('zip_type_ascii_deep', 'any ASCII media type of 37..80 characters without white space', cost=200, deadline=600, thorough=True),
    R('zip_order', 'three entries out of seven kinds, any entry count up to three', cost=38),
    R('zip_next', 'extra field and comment of any size', cost=46),
    R('zip_next_far', 'extra field and comment of up to 65,535 bytes each', cost=2),
    R('zip_name_length', 'names of several lengths up to 65,535', cost=1),
    R('zip_type', 'each media type (first half), any one byte changed', cost=63),
    R('zip_type_more', 'each media type (second half), any one byte changed', cost=53),
    R('zip_type_around', 'each media type, longer, shorter or displaced', cost=21),
    R('zip_type_space', 'arbitrary bytes before and after the media type', cost=32),
    R('zip_stored', 'any compressed and uncompressed size of the mimetype entry', cost=1),
    R('zip_local', 'any lengths in the local header', cost=19),
    R('zip_offset', 'any offset of the local header', cost=43),
    R('zip_type_limit', 'media type near the 256-byte limit, sizes up to 2^32-1', cost=2),
    R('zip_cut', 'entries truncated at every length', cost=5),
    R('zip_limit', '1022..1025 entries before the decisive one', cost=8),
    R('far_zip', 'the directory at eight places up to 2^39, with and without ZIP64', cost=2),
    R('far_type', 'the media type at five places up to 2^32', cost=1),
    R('seq_zip', 'four entries out of eight kinds, as real files have them', cost=20),
], 'more than three arbitrary entries; names other than those listed with more than one byte changed')

# Regimes of the readers that decide other properties too.
def borrow(pid, names):
    P = PROPERTIES[pid]
    known = {(r['harness'], r['module']) for r in P['regimes']}
    for q in ['P%02d' % i for i in range(9, 21)]:
        for r in PROPERTIES[q]['regimes']:
            k = (r['harness'], r['module'])
            if names(r) and k not in known and not r.get('thorough') and 'asserts' not in r:
                P['regimes'].append(r)
                known.add(k)


borrow('P02', lambda r: r['harness'].startswith(('seq_', 'far_', 'fields_', 'zip_ascii', 'zip_type_ascii', 'zip_names', 'zip_rules_wide')))
borrow('P03', lambda r: r['cost'] <= 14)

# Each reader alone: what it answers does not depend on the other readers.
for pid, c in zip(['P09', 'P10', 'P11', 'P12', 'P13', 'P14', 'P15', 'P16', 'P17', 'P19', 'P20'], CONTAINERS):
    for r in PROPERTIES[pid]['regimes']:
        if not r.get('thorough') and 'asserts' not in r and (r['cost'] <= 14 or r['harness'] in ALONE):
            PROPERTIES['P08']['regimes'].append(dict(r, module=c, bounds=r['bounds'] + '; this reader only'))
