#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, text, why, files, mech, state=None, observe=None, na=None, note=None, over=('inputs',)):
    P.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=files, mech=mech, state=state or [], observe=observe or [], na=na, note=note, over=list(over)))

exec(open(os.path.join(here, 'tools', 'props_data.py')).read())

def main():
    claimed = set()
    for f in sorted(os.listdir(os.path.join(here, 'specs'))):
        for l in open(os.path.join(here, 'specs', f)):
            m = re.match(r'//@ prop (.*)', l)
            if m: claimed.update(m.group(1).split())
    out = open(os.path.join(here, 'properties.jsonl'), 'w')
    checks, na = [], []
    ids = set()
    for x in P:
        assert x['id'] not in ids; ids.add(x['id'])
        assert len(x['title']) <= 80, x['title']
        a = dict(files=x['files'], mechanism=[dict(name=n, where=w) for n, w in x['mech']])
        if x['state']: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in x['state']]
        if x['observe']: a['observe_at'] = x['observe']
        json.dump(dict(id=x['id'], title=x['title'], statement=x['statement'], quantifier=dict(over=x['over'], text=x['text']), why_tests_cant=x['why'], anchors=a), out)
        out.write('\n')
        if x['na']:
            assert x['id'] not in claimed, x['id']
            na.append(dict(property=x['id'], reason=x['na']))
        elif x['id'] not in claimed:
            na.append(dict(property=x['id'], reason='No contract for this property discharges yet.'))
            print('unclaimed', x['id'])
        else:
            checks.append(dict(property=x['id'], quick_cmd='./check %s quick' % x['id'], thorough_cmd='./check %s thorough' % x['id'],
                technique='contract-based deductive verification: function contracts on the Go code, weakest-precondition style symbolic execution of its SSA with inductive loop invariants, obligations discharged by SMT',
                level='proof', level_note=x['note'] or 'Every obligation of the listed contracts is discharged for all inputs. ' + COMMON))
    out.close()
    for c in claimed - ids: print('no property', c)
    m = dict(version=1, setup_cmd='./setup.sh', hooks=dict(guard='none', enable='no hooks: contracts are added to the package by an overlay, /repo is built as it is', source_commits=[]),
        checks=checks, not_applicable=na, notes='See DESIGN.md.')
    json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
    print(len(checks), 'claimed', len(na), 'not applicable')

COMMON = 'Trusted: the verifier (Go SSA to SMT) and the solvers; lengths below 2^40; allocation succeeds; no data races. Contracts, functions, assumptions and obligations are listed in the evidence file.'
main()
