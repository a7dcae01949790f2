#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the descriptions below."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, technique, note, observe=(), level='exploration'):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mechanism=mechanism,
                  technique=technique, note=note, observe=list(observe), level=level))


DIFF = 'runtime differential monitor: event traces of generated programs against a UBSan/ASan-certified reference execution'

prop('C01', 'Shell scripts behave as the C program they were compiled from',
     'Every program of the C subset of the shell backend (int arithmetic, all operators, assignments, calls, control flow, arrays, pointers, '
     'structures through pointers, strings, allocation, recursion) that has no undefined behaviour is accepted, and its script run by a POSIX shell '
     'writes the same output and exits with the same status as the C program.',
     ['programs', 'inputs'], 'all programs of the documented subset, on all values on which they are defined',
     'The tests compile about 150 fixed programs; precedence, parenthesisation, hoisting of calls, side effects and statement translation interact '
     'over an unbounded space of expressions and statements.',
     ['sh.c', 'pnut.c', 'env.c', 'sh-runtime.c'],
     [('comp_rvalue_go: translation of expressions with the precedence of the surrounding operator', 'sh.c'),
      ('handle_side_effects_go: hoisting of calls out of expressions', 'sh.c'), ('comp_statement, comp_loop, comp_switch', 'sh.c')],
     DIFF + ' (dash, bash)',
     'exhaustive pairs of operators in both groupings on distinguishing values, every operator in every statement context, seeded random expressions and whole programs',
     ['stdout and exit status of the script'])

prop('C02', 'Generated scripts behave identically under all six supported shells',
     'The script generated for a program gives the same output and exit status under dash, bash, ksh, mksh, yash and zsh, '
     'whatever C identifiers the program uses that are keywords, commands or runtime function names of a shell.',
     ['programs', 'configurations'], 'all programs of the shell subset, six shells',
     'The test suite is run with one shell at a time on fixed programs; shells differ in arithmetic precedence, literal syntax and name spaces.',
     ['sh.c', 'sh-runtime.c'],
     [('parenthesisation where shells disagree about precedence', 'sh.c comp_rvalue_go'), ('portable constructs of the runtime library', 'sh-runtime.c'), ('naming of globals and functions with an underscore', 'sh.c')],
     DIFF + ', each script executed by six shells', 'programs avoid the recorded findings about zsh hexadecimal literals, ksh negative zero and special shell parameters used as local names',
     ['stdout, stderr and exit status under each shell'])

for cid, arch, files in (('C03', 'x86-64', ['exe.c', 'x86.c', 'elf.c', 'pnut.c', 'env.c']), ('C04', 'i386', ['exe.c', 'x86.c', 'elf.c', 'pnut.c', 'env.c'])):
    prop(cid, '%s executables behave as the C program they were compiled from' % arch,
         'Every program without undefined behaviour written in the C subset of the %s backend (char, short, int%s and their unsigned variants, all operators and conversions, '
         'pointers, arrays, structures, every control statement including goto and switch fallthrough, recursion) is accepted, and its executable writes the same output '
         'and exits with the same status as the C program.' % (arch, ', long long' if arch == 'x86-64' else ''),
         ['programs', 'inputs'], 'all programs of the subset, on all values on which they are defined',
         'The tests compile about 200 fixed programs; operand types, conversions, register use, spilling and control flow combine over an unbounded space.',
         files, [('codegen_rvalue, codegen_binop, codegen_lvalue: typed code generation', 'exe.c'), ('codegen_statement and the goto/label tables', 'exe.c'), ('instruction encoding', 'x86.c')],
         DIFF, 'exhaustive pairs of operators and of operand types with boundary values, every operator in every statement context, seeded random expressions and whole programs',
         ['stdout and exit status of the executable'])

NOT_APPLICABLE = []
exec(open(os.path.join(ROOT, 'tools', 'props_more.py')).read()) if os.path.exists(os.path.join(ROOT, 'tools', 'props_more.py')) else None

P.sort(key=lambda p: p['id'])
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['qtext']},
                            'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mechanism']],
                                        'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
na = {x['property'] for x in NOT_APPLICABLE}
man = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': [
    {'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % p['id'],
     'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': p['level'], 'level_note': p['note']} for p in P if p['id'] not in na],
    'not_applicable': NOT_APPLICABLE}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
