"""What each check builds and runs. Consumed by check.py."""

import glob
import os

BUILDS = {
    'plain': dict(cc='g++', flags=['-O1', '-g1', '-D_GLIBCXX_ASSERTIONS']),
    'ndebug': dict(cc='g++', flags=['-O2', '-g1', '-DNDEBUG']),
    'clang-o2': dict(cc='clang++', flags=['-O2', '-g1']),
    'debugstl': dict(cc='g++', flags=['-O1', '-g1', '-D_GLIBCXX_DEBUG', '-D_GLIBCXX_DEBUG_PEDANTIC']),
    'asan-gcc': dict(cc='g++', as_limit=0, flags=['-O1', '-g1', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS',
                     '-D_GLIBCXX_SANITIZE_VECTOR', '-fsanitize=address,undefined,float-divide-by-zero', '-fno-sanitize-recover=all']),
    'asan-clang': dict(cc='clang++', as_limit=0, flags=['-O1', '-g1', '-fno-omit-frame-pointer',
                       '-fsanitize=address,undefined,local-bounds', '-fno-sanitize-recover=all']),
    'tsan': dict(cc='g++', as_limit=0, flags=['-O1', '-g1', '-fsanitize=thread']),
    # assertions off: a wrong size estimate shows as memory misuse instead of a failed assert
    'asan-ndebug': dict(cc='g++', as_limit=0, flags=['-O2', '-g1', '-DNDEBUG', '-fno-omit-frame-pointer', '-D_GLIBCXX_SANITIZE_VECTOR',
                        '-fsanitize=address,undefined', '-fno-sanitize-recover=all']),
    # every basic block calls the harness's counter; library calls are kept as calls
    'blocks': dict(cc='g++', flags=['-O1', '-g1', '-fno-builtin', '-fsanitize-coverage=trace-pc']),
    'valgrind': dict(cc='g++', as_limit=0, flags=['-O1', '-g'],
                     wrap=['valgrind', '-q', '--error-exitcode=99', '--leak-check=full', '--errors-for-leak-kinds=definite,indirect',
                           '--child-silent-after-fork=yes']),
}

CHECKS = {}

LOCALES = [('vf_latin1', 'en_US', 'ISO-8859-1'), ('vf_latin9', 'fr_FR', 'ISO-8859-15'), ('vf_turkish', 'tr_TR', 'ISO-8859-9'),
           ('vf_turkish8', 'tr_TR', 'UTF-8'), ('vf_german', 'de_DE', 'ISO-8859-1'), ('vf_cyrillic', 'ru_RU', 'KOI8-R'),
           ('vf_greek', 'el_GR', 'ISO-8859-7')]


def prep_locales(root, repo, here, run_cmd, no_verdict, builder, builds):
    """Compile locales with letters above 0x7F and unusual case mappings into the scratch directory."""
    d = os.path.join(root, 'locales')
    os.makedirs(d)

    def one(t):
        p = os.path.join(d, t[0])
        r = run_cmd(['localedef', '--no-archive', '-c', '-i', t[1], '-f', t[2], p])
        if not os.path.exists(os.path.join(p, 'LC_CTYPE')):
            raise no_verdict('localedef failed: ' + r.stdout[-1000:])
    for f in [builder.pool.submit(one, t) for t in LOCALES]:
        f.result()
    return {'LOCPATH': d}


def prep_tool(root, repo, here, run_cmd, no_verdict, builder, builds):
    """Build uri-split from the repository's sources."""
    d = os.path.join(root, 'tool')
    os.makedirs(d)
    b = builds['plain']
    srcs = sorted(glob.glob(os.path.join(repo, 'tools', 'uri-split', '*.cpp')) + glob.glob(os.path.join(repo, 'lib', 'uri', '*.cpp')))
    objs = [f.result() for f in [builder.pool.submit(builder._compile, b['cc'], b['flags'], s, os.path.join(d, '%d.o' % i))
                                 for i, s in enumerate(srcs)]]
    exe = os.path.join(d, 'uri-split')
    r = run_cmd([b['cc']] + b['flags'] + objs + ['-o', exe])
    if r.returncode != 0:
        raise no_verdict('cannot link uri-split: ' + r.stdout[-3000:])
    shim = os.path.join(d, 'read_fault.so')
    r = run_cmd(['gcc', '-O1', '-shared', '-fPIC', os.path.join(here, 'harness', 'read_fault.c'), '-o', shim, '-ldl'])
    if r.returncode != 0:
        raise no_verdict('cannot build read_fault.so: ' + r.stdout[-1000:])
    return {'VF_TOOL': exe, 'VF_SHIM': shim}



def check(pid, **kw):
    CHECKS[pid] = kw


TEXT_RULE = ('strings enumerated over small alphabets, byte sweeps at every position of template URIs, IPv6/IPv4 shape '
             'enumeration, strings derived from the RFC 3986 ABNF, their mutations, token soup, raw bytes, long components; ')

check('C01', jobs=[dict(harness='h_c01.cpp', scale=4.0)],
      rule=TEXT_RULE + 'non-trivial: the string is in the language or becomes so by dropping its last byte; distinct by text',
      floors={'is-uri': 100000, 'is-relative-ref': 100000, 'near-miss': 50000, 'host:ipv6': 1000, 'host:future': 500,
              'host:ipv4': 500, 'host:empty': 500},
      assumptions=['The oracle (oracle_uri.hpp) states RFC 3986 correctly; it is cross-checked against a regular expression '
                   'generated from the ABNF.'])

check('C02', jobs=[dict(harness='h_c02.cpp', scale=4.0)],
      rule=TEXT_RULE + 'non-trivial: parses with an authority, a query, a fragment or a path of two or more characters; distinct by text',
      floors={'uri': 100000, 'relative': 100000})

check('C03', jobs=[dict(harness='h_c03.cpp', scale=4.0)],
      rule=TEXT_RULE + 'non-trivial: parses with an authority, a query, a fragment or a path of two or more characters; distinct by text',
      floors={'uri': 100000, 'reference': 200000, 'many-segments': 20})

check('C04', jobs=[dict(harness='h_c04.cpp', scale=4.0)],
      rule='component tuples: all small presence/emptiness combinations, tuples of legal and hostile values, parsed tuples with one '
           'field altered; distinct by tuple',
      floors={'valid': 20000, 'invalid': 50000, 'productions-ok-but-ambiguous': 500, 'text-parses-but-components-differ': 500})

check('C05', jobs=[dict(harness='h_c05.cpp', scale=2.0)],
      rule='pairs of base and reference: all pairs of small structured strings, grammar-derived pairs, mutated pairs, arbitrary '
           'component tuples, dot-heavy paths; distinct by pair',
      floors={'distinct': 50000})

check('C06', jobs=[dict(harness='h_c06.cpp', scale=5.0)],
      rule='absolute paths: every sequence of up to the enumerated number of segments over a dot-heavy alphabet, random long paths; '
           'non-trivial: removal changes the path; distinct by text',
      floors={'changed': 20000, 'unchanged': 1000, 'deep': 500})

check('C07', jobs=[dict(harness='h_c07.cpp', scale=8.0)],
      rule='all 256 bytes x 8 sets through every interface, byte pairs, random strings; distinct by set and text',
      floors={'changed': 10000, 'unchanged': 1000, 'byte-escaped': 1390, 'byte-kept': 658},
      exhaustive='every byte value under every encode set')

check('C08', jobs=[dict(harness='h_c08.cpp', scale=6.0)],
      rule='all short strings over an escape-heavy alphabet, all two-character escapes, random bytes; through the string function, '
           'iterators, range wrapper and view over several containers; non-trivial: contains %; distinct by text',
      floors={'decoded': 50000, 'percent-but-no-escape': 1000, 'decoding-reveals-an-escape': 100, 'ends-with-percent': 1000,
              'ends-one-digit-short': 1000})

check('C09', jobs=[dict(harness='h_c09.cpp', scale=8.0)],
      rule='component sets with every mix of absent, empty, null and long fields and 0..80 segments; non-trivial: some field changes; '
           'distinct by component set',
      floors={'changed:userinfo': 1000, 'changed:host': 1000, 'changed:query': 1000, 'changed:fragment': 1000, 'changed:segment': 1000,
              'changed:segment-beyond-25': 500, 'null-field': 1000, 'round-trips': 10000, 'decoded': 10000})

check('C10', jobs=[dict(harness='h_c10.cpp', scale=4.0)],
      rule='code point sequences (enumerated small, random over edge values) and punycode-like strings (enumerated small alphabets, '
           'mutated encodings, long digit runs); distinct by input',
      floors={'decode:text': 10000, 'decode:bad-input': 10000, 'decode:overflow': 100})

check('C11', jobs=[dict(harness='h_c11.cpp', scale=8.0)],
      rule='hosts as sequences of ASCII, non-ASCII, ill-formed and xn-- labels; distinct by host',
      floors={'encode:unchanged': 1000, 'encode:punycode': 1000, 'encode:ill-formed': 1000, 'round-trips': 1000,
              'many-labels': 20})

check('C12', jobs=[
          dict(harness='h_c12.cpp', build='asan-gcc', extra=['ctype_guard.cpp'], scale_thorough=0.3),
          dict(harness='h_c12.cpp', build='asan-clang', extra=['ctype_guard.cpp'], scale=0.7, scale_thorough=0.3),
          dict(harness='h_c12.cpp', build='asan-ndebug', scale=0.7, scale_thorough=0.3),
          dict(harness='h_c12.cpp', build='debugstl', extra=['ctype_guard.cpp']),
          dict(harness='h_c12.cpp', build='valgrind', scale=0.02, scale_thorough=0.01),
      ] + [dict(harness='h_c%s.cpp' % n, build=b, scale=k, scale_thorough=k / 2, env={'VF_CRASH_ONLY': '1'}) for n, b, k in [
          ('02', 'asan-gcc', 0.15), ('04', 'asan-gcc', 0.1), ('05', 'asan-gcc', 0.1), ('06', 'asan-gcc', 0.1), ('08', 'asan-gcc', 0.15),
          ('09', 'asan-gcc', 0.2), ('09', 'asan-ndebug', 0.2), ('10', 'asan-gcc', 0.15), ('11', 'asan-gcc', 0.3), ('15', 'asan-gcc', 0.1),
          ('17', 'asan-gcc', 0.1), ('18', 'asan-gcc', 0.1), ('19', 'asan-gcc', 0.1), ('22', 'asan-gcc', 0.2), ('08', 'debugstl', 0.1),
          ('19', 'debugstl', 0.1), ('10', 'debugstl', 0.1)]],
      rule='hostile inputs to every public operation under AddressSanitizer+UBSan (gcc and clang, assertions on and off), the '
           'checking standard library, valgrind memcheck and argument-checked C classification functions, plus the workloads of the '
           'other checks under the sanitizers; distinct by operation and result',
      floors={'evaluations': 100000, 'distinct': 50000})

check('C15', jobs=[dict(harness='h_c15.cpp', scale=3.0)],
      rule='random grammars over all combinators and all single-item repetitions, on enumerated and random inputs; distinct by grammar and input',
      floors={'whole-match': 50000, 'prefix-match': 50000, 'no-match': 50000, 'actions-run': 50000, 'repeated-empty-match': 200, 'counts': 500, 'counts-above-60000': 100})

check('C17', jobs=[dict(harness='h_c17.cpp', scale=4.0)],
      rule='for the nine encoding pairs: every code point, every sequence of up to the enumerated length over unit classes, random '
           'damaged text, random chunking; distinct by pair and input',
      floors={'well-formed': 100000, 'ill-formed': 100000, 'ill-formed:cut-off': 1000})

check('C18', jobs=[dict(harness='h_c18.cpp', scale=6.0)],
      rule='byte streams: all short streams over byte-order-mark bytes, marks followed by damaged text in each encoding, random bytes; '
           'distinct by stream and target encoding',
      floors={'distinct': 20000})

check('C19', jobs=[dict(harness='h_c19.cpp', scale=6.0)],
      rule='view over several range kinds, single-pass sources included, against the transcoder for every encoding pair and bytes, and '
           'random walks of kept iterators: enumerated short inputs, damaged text; '
           'distinct by pair and input',
      floors={'well-formed': 20000, 'ill-formed': 20000, 'no-output': 100, 'single-pass': 100000, 'walk-steps': 1000000})

check('C22', jobs=[dict(harness='h_c22.cpp', scale=5.0)],
      rule='all short sequences and values, random longer ones, long ones at counter limits, over pointers, containers, views, sentinels and bounds-checking iterators '
           'of each category; distinct by sequence and value',
      floors={'find:empty-range': 1000, 'find:absent': 10000, 'find:first': 1000, 'find:last': 10000, 'find:middle': 10000,
              'starts:empty-prefix': 5000, 'starts:equal': 5000, 'starts:prefix': 10000, 'starts:prefix-longer': 5000, 'starts:differs': 10000,
              'find:large': 50, 'starts:large': 50})

check('C23', jobs=[dict(harness='h_c23.cpp', scale=8.0)],
      rule='all paths of up to the enumerated number of segments over awkward texts, random paths, parsed paths; non-trivial: at least '
           'two segments or absolute; distinct by text, flag and segment count',
      floors={'parsed': 100000, 'absolute': 50000, 'relative': 50000, 'segments:0': 5000, 'segments:10+': 5000,
              'many-segments': 10})

check('C24', jobs=[dict(harness='h_c24.cpp', scale=5.0)],
      rule='pairs and triples of component sets differing in nothing or in one thing, all pairs of small component sets, pairs of '
           'parsed references; distinct by pair',
      floors={'equal': 100000, 'regrouped': 1000, 'shifted': 2000, 'long-equal': 200, 'long-unequal': 200, 'unequal': 100000, 'chains': 10000, 'flag-ignored': 5000, 'parsed:same': 20000, 'parsed:different': 50000})

check('C13', jobs=[dict(harness='h_c13.cpp', build='tsan'), dict(harness='h_c13.cpp', build='plain', scale=2.0, scale_thorough=2.0)],
      rule='fresh processes in which 2-8 threads make their first library calls at the same moment, and long storms of mixed calls on '
           'shared and private inputs, under ThreadSanitizer and natively; every result compared with the result of the same call '
           'made alone; distinct by set of calls and interleaving of their completions',
      floors={'processes': 1000, 'storms': 100, 'calls': 50000})

check('C14', jobs=[dict(harness='h_c14.cpp', scale=4.0)], level='fault_enumeration',
      rule='every operation on generated inputs, once per allocation it makes with exactly that allocation failing, then once more '
           'without a failure; distinct by operation, input and failing allocation',
      floors={'distinct': 20000})

check('C16', jobs=[dict(harness='h_c16.cpp', scale=2.0)], prep=prep_locales,
      rule='transcripts of every public operation under seven compiled locales (setlocale, uselocale, std::locale::global) and hostile '
           'facets against the transcript in the C locale; all bytes above 0x7F and all ASCII letters in every position; distinct by '
           'input, operation and locale',
      floors={'bytes': 1000, 'setlocale': 1000, 'uselocale': 1000, 'std::locale::global': 1000, 'hostile-facets': 1000,
              'locale-with-letters-above-7f': 10000, 'locale-with-unusual-case': 5000})

check('C21', jobs=[dict(harness='h_c21.cpp', scale=2.0)], prep=prep_tool,
      rule='the built program run on generated files (URIs, near-URIs, empty lines, no final newline, NULs, directories, missing '
           'files), standard input from file and pipe, several files; distinct by input bytes and arguments',
      floors={'success': 500, 'failure': 500, 'lines': 5000, 'file': 500, 'missing-file': 50, 'directory': 20, 'stdin-file': 100,
              'stdin-pipe': 100, 'fault:full': 50, 'fault:closed-output': 50, 'fault:broken-pipe': 50, 'fault:output-limit': 50,
              'fault:input': 50, 'fault:short-reads': 50, 'many-lines': 2, 'many-files': 2})

check('C25', jobs=[dict(harness='h_c25.cpp', scale=2.0), dict(harness='h_c25.cpp', build='asan-ndebug', scale=0.15, scale_thorough=0.1)],
      rule='parse, join, encode and decode on inputs in exactly sized guarded buffers; address of every view in the result checked '
           'against the buffers, input bytes compared before and after, stores pre-filled with varying content; distinct by input',
      floors={'parsed': 20000, 'joined': 10000, 'converted': 10000, 'kept': 10000, 'decoded': 5000, 'decoded-raw': 1000})

check('C26', jobs=[dict(harness='h_c26.cpp', scale=8.0)],
      rule='every code point alone and between others, random and long well-formed sequences in three encodings over containers, lists, '
           'counted and single-pass ranges with projections at every position, damaged sequences; distinct by sequence',
      floors={'code-points': 1114112, 'sequences': 100000, 'positions': 1000000, 'ill-formed': 100000, 'long-sequences': 500,
              'beyond-unicode': 10000},
      exhaustive='classification of every code point')

check('C27', jobs=[dict(harness='h_c27.cpp', scale=4.0)],
      rule='random histories of every operation with contents replaced in place, moved inputs, allocation failures and calls within '
           'calls; objects stepped in random alternation; one operation repeated over 65536 times; processes whose clock, environment and random numbers differ; each result against the same call '
           'made alone in a fresh process; distinct by operation and input',
      floors={'histories': 800, 'calls': 40000, 'processes-of-one-call': 20000, 'aborted-calls': 2000, 'calls-within-calls': 8000,
              'same-memory-other-contents': 5000, 'alternations': 800, 'switches-between-objects': 10000, 'marathon-calls': 1000000,
              'worlds': 1600, 'calls-in-other-surroundings': 100000})

check('C29', jobs=[dict(harness='h_c29.cpp', scale=4.0)],
      rule='random orders of every operation, first calls of a process included, in processes whose system call filter traps everything '
           'but memory management, with process state compared before and after; caller streams with odd formatting; live memory over '
           'passes of fresh arguments and over repetitions of one call; distinct by operation and input',
      floors={'processes': 3000, 'calls': 200000, 'stream-calls': 50000, 'state-comparisons': 20000, 'repeated-calls': 50000, 'passes': 500})

check('C28', jobs=[dict(harness='h_c28.cpp', scale=6.0)], level='fault_enumeration',
      rule='every operation that calls back, on generated inputs, once per callback with exactly that one throwing one of three exception '
           'types, then once more without; streams with room for a part of the text; distinct by operation, input and callback',
      floors={'exceptions': 500000, 'compose': 10000, 'grammar': 50000, 'encode-store': 10000, 'decode-store': 5000, 'streams': 100000})

check('C20', jobs=[dict(harness='h_c20.cpp', build='blocks', scale=1.5)],
      rule='texts made of a start, one or two repeated units and an end, at lengths n, 2n, 4n and 8n, through every operation, counting '
           'basic blocks executed, bytes moved by library block functions, bytes allocated, peak memory and stack depth; short texts '
           'against a per-byte bound; distinct by shape and operation',
      floors={'grown-parsed': 300, 'grown-not-parsed': 1000, 'short': 10000, 'blocks-executed': 1000000000})
