#!/usr/bin/env python3
"""Writes spec/Tables.tla from the tables of Go's HTTP/2 and HTTP/3 libraries
(an implementation independent of bnl's generated tables)."""
import re, os
GO = '/opt/veriftools/go1.27.3/src/vendor/golang.org/x/net/'
t = open(GO + 'http2/hpack/tables.go').read()
codes = [int(x, 16) for x in re.findall(r'0x[0-9a-f]+', re.search(r'huffmanCodes = \[256\]uint32{(.*?)}', t, re.S).group(1))]
lens = [int(x) for x in re.findall(r'\d+', re.search(r'huffmanCodeLen = \[256\]uint8{(.*?)}', t, re.S).group(1))]
assert len(codes) == 256 and len(lens) == 256
s = open(GO + 'internal/http3/qpack_static.go').read()
rows = re.findall(r'(\d+):\s*{"((?:[^"\\]|\\.)*)",\s*"((?:[^"\\]|\\.)*)"}', s)
assert [int(r[0]) for r in rows] == list(range(99)), len(rows)
unq = lambda x: x.replace('\\"', '"').replace('\\\\', '\\')
tup = lambda x: '<<' + ', '.join(str(b) for b in unq(x).encode()) + '>>'
out = ['------------------------------- MODULE Tables -------------------------------',
       '(* Generated by tools/mktables.py: the Huffman code of RFC 7541, appendix B and',
       '   the static table of QPACK (RFC 9204, appendix A). *)', '',
       '\\* <<code, number of bits>> of the symbols 0..255', 'HuffmanTable == <<']
out.append(',\n'.join('  <<%d, %d>>' % (c, l) for c, l in zip(codes, lens)))
out += ['>>', '', '\\* <<name, value>> of the entries 0..98', 'StaticTable == <<']
out.append(',\n'.join('  \\* %s: %s = %s\n  <<%s, %s>>' % (i, unq(n), unq(v), tup(n), tup(v)) for i, n, v in rows))
out += ['>>', '', '=' * 77, '']
open(os.path.join(os.path.dirname(__file__), '../spec/Tables.tla'), 'w').write('\n'.join(out))
