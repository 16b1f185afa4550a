#!/usr/bin/env python3
"""Compose DESIGN.md from doc/*.md, the property modules and the planted bugs (development tool)."""
import ast, json, os, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def consts(path):
    t = ast.parse(open(path).read())
    out = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('RULE', 'ASSUMPTIONS', 'WORKLOADS'):
            out[n.targets[0].id] = n.value
    return out


def wrap(s, ind=''):
    return textwrap.fill(' '.join(s.split()), 118, initial_indent=ind, subsequent_indent=ind)


def main():
    man = {c['property']: c for c in json.load(open(V + '/MANIFEST.json'))['checks']}
    out = [open(V + '/doc/design_head.md').read()]
    for line in open(V + '/properties.jsonl'):
        p = json.loads(line)
        c = consts(f'{V}/monitor/props/{p["id"].lower()}.py')
        rule = ast.literal_eval(c['RULE'])
        ass = ast.literal_eval(c['ASSUMPTIONS'])
        w = []
        for k, v in zip(c['WORKLOADS'].keys, c['WORKLOADS'].values):
            w.append(f'{k.value} {ast.unparse(v.elts[1])}/{ast.unparse(v.elts[2])}')
        out.append(f'### {p["id"]} - {p["title"]}\n\n')
        out.append(wrap('*Method*: ' + man[p['id']]['technique'] + '.') + '\n\n')
        out.append(wrap('*Observed and judged*: ' + rule) + '\n\n')
        out.append(wrap('*Cases (quick/thorough)*: ' + ', '.join(w) + '.') + '\n\n')
        if ass:
            out.append(wrap('*Bounds and assumptions*: ' + '; '.join(ass) + '.') + '\n\n')
    out.append('## 3. Planted bugs and who catches them\n\n')
    out.append(wrap('Each change under `seeded/` builds, passes the stable tests, and has a demonstration; every one listed was run '
                    'through the quick check of its property with `tools/evalpatch.py`.  "Caught by" is that check; `doc/catch.json` adds the '
                    'other checks that also report it where the full matrix was run.') + '\n\n')
    catch = json.load(open(V + '/doc/catch.json')) if os.path.exists(V + '/doc/catch.json') else {}
    out.append('| change | property | what it breaks | caught by |\n|---|---|---|---|\n')
    rows = []
    for i in sorted(os.listdir(V + '/seeded')):
        m = json.load(open(f'{V}/seeded/{i}/meta.json'))
        cb = catch.get(i)
        rows.append((m['property'], i, f'| {i} | {m["property"]} | {m["what_it_breaks"]} | {", ".join(cb) if cb else ("-" if cb == [] else m["property"])} |\n'))
    out += [r for _, _, r in sorted(rows)]
    out.append(open(V + '/doc/design_tail.md').read())
    open(V + '/DESIGN.md', 'w').write(''.join(out))


main()
