#!/usr/bin/env python3
"""Writes MANIFEST.json (kept here so that the texts of all checks stay in one place)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
X = 'bounded exhaustive exploration of the real code in lockstep with an independent reference model'
T = {
 'S': ('spake2', X + ' (all secrets, identities, messages of toy groups; systematic alphabets over Ed25519)',
       'Exhaustive within the bounds listed in the evidence. Toy groups (orders up to 251, element lengths 1..70 bytes) are enumerated completely through the public Group trait; Ed25519 over systematic alphabets. Trusted: curve25519-dalek arithmetic, SHA-2, HKDF, num-bigint and the reference model.'),
 'R': ('srp', X + ' (all secrets and public values of toy groups, special values of medium and built-in groups)',
       'Exhaustive within the bounds listed in the evidence: every exponent and public value of toy safe-prime groups with 15 digests, systematic special values on 27 medium and the 7 built-in groups. Trusted: num-bigint, the hash crates, the reference model.'),
 'A': ('aucpace', X + ' (all variants and entry points, message substitutions, histories, systematic alphabets)',
       'Exhaustive within the bounds listed in the evidence, over all protocol variants and entry points with scripted random draws, recording hashers and databases. Trusted: curve25519-dalek arithmetic, SHA-2, scrypt and the reference model.'),
}
special = {
 'X01': ('exhaustive interleaving exploration of API calls of concurrent sessions; preemption-bounded exploration of real threads at callback points',
         'All interleavings of whole calls of two sessions; threads up to 2 preemptions at trait callbacks; all first-use orders in fresh processes. Synchronisation inside std that has no callback is only exercised, not enumerated.'),
 'X04': ('exhaustive enumeration of a bounded family of wrong proofs, each refused by the real code under single-stepping; the executed instruction sequences are compared',
         'Every prefix, suffix and single position of right or wrong bytes, patterns and pairs of differences, for every digest size and variant, on the code compiled as written (no optimisation), memory comparison byte by byte. Instructions, not cycles, are compared.'),
 'X02': ('exhaustive exploration of the feature configurations; traces of the real code compared between all of them',
         'Every function that two configurations share gives identical transcripts on a systematic alphabet, over a covering set of feature subsets (thorough: all of them), in debug and release builds.'),
 'X05': ('exhaustive enumeration of the call sequences of the session state machine extracted from the compiler description of the public interface; every sequence, repetition and out-of-order step replayed against the compiler',
         'All public calls, types and trait implementations of the two crates with all features; every maximal call sequence must compile, every repeated or out-of-order step must be refused. One instantiation of the generic parameters. Safe code only.'),
 'X03': ('bounded exhaustive exploration of adversarial peer inputs against the real code, panics and hangs detected',
         'Exhaustive within the bounds of the adversarial alphabets listed in the evidence.'),
}
NA = {
}
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
crate_of = lambda p: {'S': 'mcspake2', 'R': 'mcsrp', 'A': 'mcaucpace'}.get(p[0]) or {'X02': 'mcx02', 'X04': 'mctime', 'X05': 'mctype'}.get(p, 'mciso')
for p in props:
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]}); continue
    if not os.path.exists(f'{ROOT}/mc/{crate_of(i)}/Cargo.toml'):
        na.append({'property': i, 'reason': 'its check is not built yet'}); continue
    tech, note = special[i] if i in special else T[i[0]][1:]
    checks.append({'property': i, 'quick_cmd': f'./run.sh {i} quick', 'thorough_cmd': f'./run.sh {i} thorough',
                   'evidence_file': f'evidence/{i}.json', 'technique': tech, 'level': 'model_checking', 'level_note': note})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: every check uses the public API only. Known findings: known_findings.txt. Replay a violation with the command in its replay file.'}
json.dump(m, open(f'{ROOT}/MANIFEST.json', 'w'), indent=1); print(len(checks), 'checks', len(na), 'not applicable')
