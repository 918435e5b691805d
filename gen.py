#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py"""
import json, os
import props
H = os.path.dirname(os.path.abspath(__file__))
with open(H + '/properties.jsonl', 'w') as f:
    for pid, p in sorted({**props.PROPS, **props.NA}.items()):
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(dict(id=pid, title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=p['mech'])), ensure_ascii=False) + '\n')
ck = []
for pid, p in sorted(props.PROPS.items()):
    ck.append(dict(property=pid, quick_cmd=f'python3-vt check.py {pid} --tier quick', thorough_cmd=f'python3-vt check.py {pid} --tier thorough',
        technique='bounded symbolic execution of the LLVM IR of the current sources, assertions decided by z3, counterexamples replayed natively', level='other',
        level_note=(p['note'] + ' ' if p['note'] else '') + f"Every assertion is decided by the solver for all values within the bounds: {p['bounds']}. Outside: {p['outside']}. Trusted: clang, the executor in vx/ and its models of external functions, z3, exact-real reading of floating point."))
m = dict(version=1, setup_cmd='python3-vt selftest.py', checks=ck, not_applicable=[dict(property=k, reason=v['reason']) for k, v in sorted(props.NA.items())])
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
