#!/usr/bin/env python3
"""One-off generator of harness/src/tables.rs: the reference signature, CLSID and name tables.

The tables are part of the specification and are committed; they were transcribed once from the
reviewed tree (git 3b2f141) and are NOT regenerated by the checks."""
import re, subprocess, sys
repo = sys.argv[1]
src = open(repo + '/src/signatures.rs').read()
rd = open(repo + '/src/readers.rs').read()

def unescape(lit):
    out = bytearray(); i = 0
    esc = {'n': 10, 'r': 13, 't': 9, '0': 0, '\\': 92, '"': 34, "'": 39}
    while i < len(lit):
        c = lit[i]
        if c == '\\':
            if lit[i+1] == 'x':
                out.append(int(lit[i+2:i+4], 16)); i += 4
            else:
                out.append(esc[lit[i+1]]); i += 2
        else:
            out.append(ord(c)); i += 1
    return bytes(out)

def rb(b):
    return 'b"' + ''.join(chr(c) if 32 <= c < 127 and c not in (34, 92) else '\\x%02x' % c for c in b) + '"'

out = ['// @generated by tools/gen_tables.py from the reviewed tree; part of the specification.\n',
       'use file_format::FileFormat as F;\n\n',
       '/// Signature alternatives in order of precedence: all parts `(offset, bytes)` must match.\n',
       'pub static SIGS: &[(F, &[(u64, &[u8])])] = &[\n']
n = 0
fmt = None
for line in src.splitlines():
    t = line.strip()
    if t.startswith('//') or not t: continue
    m = re.match(r'format = (\w+)', t)
    if m: fmt = m.group(1); continue
    if t.startswith('value ='):
        buf = t[len('value ='):]
    elif t.startswith('b"'):
        buf = t
    else:
        continue
    parts = []
    for m in re.finditer(r'b"((?:[^"\\]|\\.)*)"(?:\s*offset\s*=\s*(\d+))?', buf):
        parts.append((int(m.group(2) or 0), unescape(m.group(1))))
    assert parts, t
    cont = t.startswith('b"')
    if cont:
        raise SystemExit('continuation line: ' + t)
    n += 1
    out.append('    (F::%s, &[%s]),\n' % (fmt, ', '.join('(%d, %s)' % (o, rb(b)) for o, b in parts)))
out.append('];\n\n')
cl = re.findall(r'"([0-9a-f]{8}-[0-9a-f-]{27})" => Self::(\w+)', rd)
out.append('/// CLSIDs of compound files, as stored on disk.\npub static CLSIDS: &[([u8; 16], F)] = &[\n')
import uuid
for g, f in cl:
    out.append('    ([%s], F::%s), // %s\n' % (', '.join('0x%02x' % c for c in uuid.UUID(g).bytes_le), f, g))
out.append('];\n\n')
zb = rd[rd.index('match filename.as_str()'):]
out.append('/// File names that settle the format of a ZIP archive.\npub static ZIP_NAMES: &[(&[u8], F)] = &[\n')
for nm, f in re.findall(r'"([^"]+)" => return Ok\(Self::(\w+)\)', zb):
    out.append('    (b"%s", F::%s),\n' % (nm, f))
out.append('];\n\n')
out.append('/// Contents of the "mimetype" entry.\npub static ZIP_TYPES: &[(&[u8], F)] = &[\n')
mt = zb[zb.index('match data.trim()'):zb.index('_ => Self::Zip,')]
mt = re.sub(r'\s+', ' ', mt)
for arm in re.findall(r'((?:"[^"]+" ?\|? ?)+)=> \{? ?Self::(\w+)', mt):
    for s in re.findall(r'"([^"]+)"', arm[0]):
        out.append('    (b"%s", F::%s),\n' % (s, arm[1]))
out.append('];\n')
open('/verif/harness/src/tables.rs', 'w').write(''.join(out))
print(n, len(cl))
