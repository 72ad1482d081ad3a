#!/usr/bin/env python3
"""Development self-test of harness/oracle_uri.hpp: compares it with a regular expression compiled
from RFC 3986 appendix A's ABNF and with the regular expression of appendix B, and with the
resolution examples of section 5.4.  selftest/abnf_check.py [count] [seed]"""
import os, random, re, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
ABNF = r'''
URI = scheme ":" hier-part [ "?" query ] [ "#" fragment ]
hier-part = "//" authority path-abempty / path-absolute / path-rootless / path-empty
URI-reference = URI / relative-ref
relative-ref = relative-part [ "?" query ] [ "#" fragment ]
relative-part = "//" authority path-abempty / path-absolute / path-noscheme / path-empty
scheme = ALPHA *( ALPHA / DIGIT / "+" / "-" / "." )
authority = [ userinfo "@" ] host [ ":" port ]
userinfo = *( unreserved / pct-encoded / sub-delims / ":" )
host = IP-literal / IPv4address / reg-name
port = *DIGIT
IP-literal = "[" ( IPv6address / IPvFuture ) "]"
IPvFuture = "v" 1*HEXDIG "." 1*( unreserved / sub-delims / ":" )
IPv6address = 6( h16 ":" ) ls32 / "::" 5( h16 ":" ) ls32 / [ h16 ] "::" 4( h16 ":" ) ls32 / [ *1( h16 ":" ) h16 ] "::" 3( h16 ":" ) ls32 / [ *2( h16 ":" ) h16 ] "::" 2( h16 ":" ) ls32 / [ *3( h16 ":" ) h16 ] "::" h16 ":" ls32 / [ *4( h16 ":" ) h16 ] "::" ls32 / [ *5( h16 ":" ) h16 ] "::" h16 / [ *6( h16 ":" ) h16 ] "::"
h16 = 1*4HEXDIG
ls32 = ( h16 ":" h16 ) / IPv4address
IPv4address = dec-octet "." dec-octet "." dec-octet "." dec-octet
dec-octet = DIGIT / %x31-39 DIGIT / "1" 2DIGIT / "2" %x30-34 DIGIT / "25" %x30-35
reg-name = *( unreserved / pct-encoded / sub-delims )
path-abempty = *( "/" segment )
path-absolute = "/" [ segment-nz *( "/" segment ) ]
path-noscheme = segment-nz-nc *( "/" segment )
path-rootless = segment-nz *( "/" segment )
path-empty = 0pchar
segment = *pchar
segment-nz = 1*pchar
segment-nz-nc = 1*( unreserved / pct-encoded / sub-delims / "@" )
pchar = unreserved / pct-encoded / sub-delims / ":" / "@"
query = *( pchar / "/" / "?" )
fragment = *( pchar / "/" / "?" )
pct-encoded = "%" HEXDIG HEXDIG
unreserved = ALPHA / DIGIT / "-" / "." / "_" / "~"
sub-delims = "!" / "$" / "&" / "'" / "(" / ")" / "*" / "+" / "," / ";" / "="
ALPHA = %x41-5A / %x61-7A
DIGIT = %x30-39
HEXDIG = DIGIT / "A" / "B" / "C" / "D" / "E" / "F"
'''
rules = {}
for l in ABNF.strip().split('\n'):
    n, d = l.split(' = ', 1)
    rules[n] = d
TOK = re.compile(r'\s*("[^"]*"|%x[0-9A-F]+-[0-9A-F]+|\d*\*\d*|\d+|[A-Za-z][A-Za-z0-9-]*|[()\[\]/])')


def parse(d):
    toks = []
    at = 0
    while at < len(d.rstrip()):
        m = TOK.match(d, at)
        toks.append(m.group(1))
        at = m.end()
    pos = 0

    def alt():
        nonlocal pos
        alts = [seq()]
        while pos < len(toks) and toks[pos] == '/':
            pos += 1
            alts.append(seq())
        return ('alt', alts)

    def seq():
        nonlocal pos
        items = []
        while pos < len(toks) and toks[pos] not in ('/', ')', ']'):
            lo, hi = 1, 1
            t = toks[pos]
            if re.fullmatch(r'\d*\*\d*', t):
                a, b = t.split('*')
                lo, hi = int(a or 0), int(b) if b else None
                pos += 1
            elif t.isdigit():
                lo = hi = int(t)
                pos += 1
            t = toks[pos]
            if t == '(':
                pos += 1
                e = alt()
                pos += 1
            elif t == '[':
                pos += 1
                e = ('rep', 0, 1, alt())
                pos += 1
            else:
                pos += 1
                e = ('tok', t)
            items.append(e if (lo, hi) == (1, 1) else ('rep', lo, hi, e))
        return ('seq', items)
    return alt()


trees = {n: parse(d) for n, d in rules.items()}


def rx(e):
    k = e[0]
    if k == 'alt':
        return '(?:' + '|'.join(rx(x) for x in e[1]) + ')'
    if k == 'seq':
        return ''.join(rx(x) for x in e[1])
    if k == 'rep':
        return '(?:%s){%d,%s}' % (rx(e[3]), e[1], '' if e[2] is None else e[2])
    t = e[1]
    if t[0] == '"':
        return ''.join('[%s%s]' % (c.lower(), c.upper()) if c.isalpha() else re.escape(c) for c in t[1:-1])
    if t[0] == '%':
        a, b = t[2:].split('-')
        return '[\\x%s-\\x%s]' % (a, b)
    return rx(trees[t])


def gen(e, r, depth=0):
    k = e[0]
    if k == 'alt':
        return gen(r.choice(e[1]), r, depth)
    if k == 'seq':
        return ''.join(gen(x, r, depth + 1) for x in e[1])
    if k == 'rep':
        hi = e[2] if e[2] is not None else e[1] + r.choice([0, 0, 1, 2, 3, 5])
        return ''.join(gen(e[3], r, depth + 1) for _ in range(r.randint(e[1], hi)))
    t = e[1]
    if t[0] == '"':
        return ''.join(r.choice([c.lower(), c.upper()]) for c in t[1:-1])
    if t[0] == '%':
        a, b = t[2:].split('-')
        return chr(r.randint(int(a, 16), int(b, 16)))
    return gen(trees[t], r, depth + 1)


B = re.compile(r'(?:([^:/?#]+):)?(?://([^/?#]*))?([^?#]*)(?:\?([^#]*))?(?:#(.*))?', re.S)
AUTH = re.compile(r'(?:([^@]*)@)?(\[[^\]]*\]|[^:\[]*)(?::(.*))?', re.S)


def hx(s):
    return s.encode('latin-1').hex()


def expect(s, ok):
    if not ok:
        return 'no'
    sch, auth, path, q, f = B.fullmatch(s).groups()
    o = lambda x: '-' if x is None else '=' + hx(x)
    u = h = p = None
    if auth is not None:
        u, h, p = AUTH.fullmatch(auth).groups()
    return ','.join([o(sch), '-' if auth is None else 'A', o(u), hx(h or ''), o(p), hx(path), o(q), o(f)])


EX = '''g:h=g:h g=http://a/b/c/g ./g=http://a/b/c/g g/=http://a/b/c/g/ /g=http://a/g //g=http://g ?y=http://a/b/c/d;p?y g?y=http://a/b/c/g?y
#s=http://a/b/c/d;p?q#s g#s=http://a/b/c/g#s g?y#s=http://a/b/c/g?y#s ;x=http://a/b/c/;x g;x=http://a/b/c/g;x g;x?y#s=http://a/b/c/g;x?y#s =http://a/b/c/d;p?q
.=http://a/b/c/ ./=http://a/b/c/ ..=http://a/b/ ../=http://a/b/ ../g=http://a/b/g ../..=http://a/ ../../=http://a/ ../../g=http://a/g
../../../g=http://a/g ../../../../g=http://a/g /./g=http://a/g /../g=http://a/g g.=http://a/b/c/g. .g=http://a/b/c/.g g..=http://a/b/c/g.. ..g=http://a/b/c/..g
./../g=http://a/b/g ./g/.=http://a/b/c/g/ g/./h=http://a/b/c/g/h g/../h=http://a/b/c/h g?y/./x=http://a/b/c/g?y/./x g?y/../x=http://a/b/c/g?y/../x
g#s/./x=http://a/b/c/g#s/./x g#s/../x=http://a/b/c/g#s/../x http:g=http:g'''


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 200000
    r = random.Random(int(sys.argv[2]) if len(sys.argv) > 2 else 1)
    full, ref = re.compile(rx(trees['URI'])), re.compile(rx(trees['URI-reference']))
    cases = []
    chars = [chr(c) for c in range(256)]
    for i in range(n):
        s = gen(trees[r.choice(['URI', 'URI-reference'])], r)
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            at = r.randint(0, len(s))
            k = r.randint(0, 3)
            ch = r.choice(chars) if r.random() < .3 else r.choice(':/?#[]@%.-12af ')
            s = s[:at] + (ch if k < 2 else '') + s[at + (k in (1, 2)):]
        cases.append(s)
    with tempfile.TemporaryDirectory() as d:
        exe = os.path.join(d, 'oracle')
        subprocess.check_call(['g++', '-std=c++20', '-O2', '-o', exe, os.path.join(HERE, 'oracle_cli.cpp')])
        out = subprocess.run([exe], input=''.join('P x%s\n' % hx(s) for s in cases), stdout=subprocess.PIPE, text=True, check=True).stdout.split('\n')
        pos = [0, 0]
        for s, o in zip(cases, out):
            a, b = bool(full.fullmatch(s)), bool(ref.fullmatch(s))
            pos[0] += a
            pos[1] += b
            if o != expect(s, a) + ' ' + expect(s, b):
                print('DISAGREE', ascii(s), o, '|', expect(s, a), expect(s, b))
                return 1
        ex = [(e[:e.rfind('=http' if '=http' in e else '=')], e[e.rfind('=http' if '=http' in e else '=') + 1:]) for e in EX.split()]
        out = subprocess.run([exe], input=''.join('R x%s x%s\n' % (hx('http://a/b/c/d;p?q'), hx(a)) for a, _ in ex), stdout=subprocess.PIPE, text=True, check=True).stdout.split('\n')
        for (a, b), o in zip(ex, out):
            if o != hx(b):
                print('DISAGREE resolve', a, b, bytes.fromhex(o))
                return 1
    print('oracle agrees on %d strings (%d URIs, %d references) and %d resolutions' % (n, *pos, len(ex)))
    return 0


sys.exit(main())
