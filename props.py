"""Single source of properties.jsonl, MANIFEST.json, harness/specs.json and the table of DESIGN.md (python3 props.py)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
PARSER = ['Narsese/Parser/NarseseParser.cpp', 'Narsese/Parser/NarseseParser.h', 'Narsese/Parser/Parser.cpp', 'Narsese/Parser/Parser.h', 'Narsese/Parser/narsese.cpp', 'Narsese/Parser/narsese.h', 'Narsese/Parser/narsese.par']
TERMS = ['Narsese/include/Term.h', 'Narsese/include/Term.inl', 'Narsese/src/Term.cpp', 'Narsese/include/Compound.h', 'Narsese/include/Compound.inl', 'Narsese/src/Compound.cpp', 'Narsese/include/Statement.h', 'Narsese/include/Statement.inl', 'Narsese/include/Variable.h', 'Narsese/include/Variable.inl']
INTERP = ['Interpreter/include/Interpreter.hpp', 'Interpreter/src/Interpreter.cpp']
def run(harness, *defs, what, bounds='', reach=(), opts=(), **kw): return dict(harness=harness, defs=['-D' + d for d in defs], what=what, bounds=bounds, reach=list(reach), opts=list(opts), **kw)
def prop(id, title, statement, quant, why, files, mech, runs, bounds, outside, over=('inputs',), assumptions=(), note='', state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': list(over), 'text': quant}, why_tests_cant=why,
                  anchors={'files': files, 'state': [dict(name=a, meaning=b) for a, b in state], 'mechanism': [dict(name=a, where=b) for a, b in mech]}, runs=runs, bounds=bounds, outside=outside, assumptions=list(assumptions), note=note))
exec(open(os.path.join(HERE, 'props_parser.py')).read())
for f in ('props_terms.py', 'props_rest.py'):
    if os.path.exists(os.path.join(HERE, f)): exec(open(os.path.join(HERE, f)).read())

COMMON = ['clang 18 -O1 bitcode of the tree means what the source means (checked by re-running explored paths natively)', 'symx, its C/C++ runtime models (rt/) and z3/cvc5 are right', 'operator new does not fail', 'the "C" locale']
def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P: f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
    built = [p for p in P if p['runs']]
    json.dump({p['id']: dict(runs=p['runs'], bounds=p['bounds'], outside=p['outside'], level='model_checking', assumptions=COMMON + p['assumptions']) for p in built}, open(os.path.join(HERE, 'harness', 'specs.json'), 'w'), indent=1)
    m = {'version': 1, 'setup_cmd': 'python3 run.py setup',
         'checks': [{'property': p['id'], 'quick_cmd': f'python3 run.py check {p["id"]}', 'thorough_cmd': f'python3 run.py check {p["id"]} --tier thorough', 'evidence_file': f'evidence/{p["id"]}.json',
                     'technique': 'symbolic execution of the LLVM bitcode of the real code, decided by SMT (z3, cvc5)', 'level': 'model_checking',
                     'level_note': 'Every input within the bounds, by path-exhaustive symbolic execution; counterexamples are replayed in a sanitized native build before they are reported. Bounds: ' + p['bounds'] + ' Outside: ' + p['outside'] + (' ' + p['note'] if p['note'] else '')} for p in built],
         'not_applicable': [{'property': p['id'], 'reason': p['note'] or 'no check yet'} for p in P if not p['runs']],
         'notes': 'See DESIGN.md. No hooks: the checks compile /repo unmodified.'}
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    d = os.path.join(HERE, 'DESIGN.md')
    if os.path.exists(d):
        s = open(d).read(); a, b = '<!-- table -->\n', '<!-- /table -->'
        if a in s:
            t = ''
            for p in P:
                t += f'### {p["id"]} {p["title"]}\n\n{p["statement"]}\n\n'
                if p['runs']:
                    for r in p['runs']: t += f'* `{r["harness"]}` {" ".join(r["defs"])}{" (thorough only)" if r.get("tier") == "thorough" else ""}: {r["what"]}' + (f' Bounds: {r["bounds"]}' if r['bounds'] else '') + '\n'
                    t += f'* Bounds: {p["bounds"]}\n* Outside: {p["outside"]}\n* Beyond the tests: {p["why_tests_cant"]}\n\n'
                else: t += f'Not applicable: {p["note"] or "no check yet"}\n\n'
            i = s.index(a) + len(a); j = s.index(b); open(d, 'w').write(s[:i] + t + s[j:])
    print(len(P), 'properties,', len(built), 'claimed')
main() if __name__ == '__main__' else None
