#!/usr/bin/env python3
"""Turns the option tables of the documentation into harness/options_table.inc (run once, the result is committed: it is
the documented contract that C14 holds the code to, not something read from the tree under test)."""
import csv, re, sys
KINDS = {'Linear Models': 'linmod', 'Principal Component Analysis': 'pca', 'k-means Clustering': 'kmeans', 'DBSCAN clustering': 'dbscan',
         'Decision Trees': 'decision_tree', 'Decision Forests': 'decision_forest', 'Nonlinear Least Squares': 'nlls', 'Nearest Neighbors': 'nn',
         'Support Vector Machines': 'svm', 'Interpolation': 'interpolation', 'Approximate Nearest Neighbors': 'approx_nn',
         'Kernel Principal Component Analysis': 'kernel_pca', 't-SNE': 'tsne', 'DATASTORE': 'datastore'}
src = open(sys.argv[1] + '/doc/C/options/all_table.rst').read()
out = []
for part in src.split('.. csv-table::')[1:]:
    title = part.split('\n')[0]
    m = re.search(r'Table of Options for (.*?)\.`', title)
    kind = KINDS[m.group(1) if m else 'DATASTORE']
    rows = [l.strip() for l in part.split('\n')[4:] if l.strip().startswith('"')]
    for r in csv.reader([x.replace('", "', '","').replace('", :', '",:') for x in rows], escapechar='~', doublequote=False):
        if len(r) != 5:
            print('skipped', kind, r, file=sys.stderr); continue
        name, typ, dflt, _, con = r
        m = lambda s: re.sub(r':math:`([^`]*)`', r'\1', s)
        if typ == 'string':
            d = re.search(r'`s=` `(.*)`$', dflt)
            d = d.group(1).replace('\\\\', '\\') if d else ('' if dflt.strip() == 'empty' else '?')
            c = con.split('`s=`', 1)[1] if '`s=`' in con else ''
            labels = re.findall(r'`([^`]*)`', c)
            if (kind, name) == ('nlls', 'optim method'): d = '?' # the table lists the default of the optimizer registry, nlls picks its own
            out.append((kind, name, 's', d, labels, None, 0, None, 0))
            continue
        d = m(dflt).split('=', 1)[1].strip().rstrip('`')
        def num(x):
            x = x.strip()
            k = re.fullmatch(r'10\^\{?(-?\d+)\}?', x)
            if k: return '1e' + k.group(1)
            try: float(x); return x
            except ValueError: return None
        c = m(con).strip()
        lo = hi = None; lt = ht = 0
        if not c.startswith('There are no'):
            parts = re.split(r'(\\le|<)', c)
            i = [k for k, x in enumerate(parts) if x.strip() in 'ri' and x.strip()][0]
            if i >= 2: lo, lt = num(parts[i-2]), 1 if parts[i-1] == '<' else 2
            if i + 2 < len(parts): hi, ht = num(parts[i+2]), 1 if parts[i+1] == '<' else 2
            if (lt and lo is None) or (ht and hi is None): print('bound?', kind, name, con, file=sys.stderr)
        out.append((kind, name, typ[0], num(d), [], lo, lt, hi, ht))
        if num(d) is None: print('default not a number', kind, name, d, file=sys.stderr)
q = lambda s: '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'
with open('/verif/harness/options_table.inc', 'w') as f:
    f.write('// Generated by tools/options_table.py from doc/C/options/all_table.rst at the pinned commit.\n'
            '// kind, name, type (i r s), default known, default string, default number, labels, lower, type, upper, type (0 none, 1 strict, 2 weak)\n')
    for k, n, t, d, lab, lo, lt, hi, ht in out:
        isn = t != 's'
        f.write('{%s, %s, \'%s\', %s, %s, %s, {%s}, %s, %d, %s, %d},\n' % (q(k), q(n), t, 'true' if d not in (None, '?') else 'false', q('' if isn or d in (None, '?') else d), (d if isn and d is not None else '0'),
                ', '.join(q(x) for x in lab), lo or 0, lt, hi or 0, ht))
