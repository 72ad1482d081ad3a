#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py."""
import json
from checks import CHECKS
T = {
 'C01': ('runtime oracle: independent RFC 3986 recogniser over generated strings', 'generated and enumerated strings, not all strings; oracle itself cross-checked against an ABNF-derived regular expression (abnf_check.py)'),
 'C02': ('runtime oracle: independent RFC 3986 decomposer plus address monitor', 'generated and enumerated strings'),
 'C03': ('round-trip monitor over the real parser and composer', 'generated and enumerated strings'),
 'C04': ('runtime oracle: components checked and recomposed by an independent recogniser', 'generated component tuples'),
 'C05': ('runtime oracle: literal transcription of RFC 3986 5.2.2-5.2.4 on text', 'generated pairs of base and reference'),
 'C06': ('runtime oracle: literal RFC 3986 5.2.4 on text', 'all short segment lists, random long ones'),
 'C07': ('runtime oracle: encode-set tables over every byte and generated strings', 'every byte and set exhaustively; strings sampled'),
 'C08': ('runtime oracle: one-pass decoder, over several range and iterator kinds', 'all short strings over an escape alphabet, others sampled'),
 'C09': ('field-wise model and round-trip monitor', 'generated component sets'),
 'C10': ('runtime oracle: RFC 3492 in wide arithmetic, with inverse check', 'every code point, enumerated short strings, others sampled'),
 'C11': ('label-by-label model of host conversion and round-trip monitor', 'generated hosts'),
 'C12': ('AddressSanitizer, UBSan, LeakSanitizer, libstdc++ debug mode, valgrind memcheck and argument monitors under hostile workloads', 'absence of reports on the executed inputs; public API of the pinned toolchain'),
 'C13': ('ThreadSanitizer with barrier-released threads in fresh processes, plus sequential result comparison', 'interleavings the scheduler produced'),
 'C14': ('exhaustive single-allocation fault injection per call with result, leak and input monitors', 'every failing allocation of each generated call; one failure at a time'),
 'C15': ('runtime oracle: independent interpreter of the combinator semantics over random grammars', 'generated grammars and inputs'),
 'C16': ('transcript comparison under compiled locales and hostile facets', 'seven locales and synthetic facets'),
 'C17': ('runtime oracle: independent UTF codecs over every code point and unit-class sequences', 'bounded sequences exhaustively by class, longer ones sampled'),
 'C18': ('runtime oracle: byte-order-mark model and codecs over byte streams', 'all short streams over mark bytes, others sampled'),
 'C19': ('differential monitor: view against transcoder and independent codec', 'generated sequences and range kinds'),
 'C20': ('basic-block, allocation and stack-depth metering at doubling input sizes', 'generated shapes; growth judged over a factor of eight'),
 'C21': ('output model for the real program run on files and pipes', 'generated files'),
 'C22': ('definitional oracle over range kinds with bounds-checking iterators', 'all short sequences, others sampled'),
 'C23': ('definitional oracle for path conversion', 'all short segment lists, others sampled'),
 'C24': ('algebraic monitor (reflexive, symmetric, transitive) against composed text', 'generated pairs and chains'),
 'C26': ('definitional oracle over every code point and generated sequences', 'every code point exhaustively; sequences sampled'),
 'C27': ('differential monitor: call histories in one process against single calls in fresh processes', 'generated histories, nestings and alternations'),
 'C28': ('exception injection at every callback with propagation, prefix, leak and repeat monitors', 'every callback of each generated call (sampled beyond 120); one exception at a time'),
 'C29': ('system call filter, process-state comparison and live-memory accounting around calls', 'generated call orders; state outside the listed kinds is not observed'),
 'C25': ('address-range and input-immutability monitors', 'generated inputs'),
}
checks = []
for p in sorted(CHECKS):
    t, n = T[p]
    checks.append(dict(property=p, quick_cmd='python3 check.py %s' % p, thorough_cmd='python3 check.py %s --thorough' % p,
                       technique=t, level=CHECKS[p].get('level', 'exploration'), level_note=n))
json.dump(dict(version=1, setup_cmd='mkdir -p build evidence replay && g++ --version >/dev/null && clang++ --version >/dev/null && valgrind --version >/dev/null',
               checks=checks, not_applicable=[],
               notes='Every check rebuilds the library from /repo with its own harness under /verif/build and removes the build afterwards. '
                     'No hooks in /repo are needed. Replay: python3 check.py ID --replay FILE.'),
          open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
