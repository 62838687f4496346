import ast, glob, os
COMMON = ' Assumes real arithmetic for symbolic equality, no failing allocation or stream, clang\'s IR of the default configuration; undecided obligations are printed and counted, not claimed.'
CLAIM = {}
for f in sorted(glob.glob('/verif/checks/*.py')):
    d = {n.targets[0].id: ast.literal_eval(n.value) for n in ast.parse(open(f).read()).body if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('TECH', 'NOTE')}
    if len(d) == 2: CLAIM[os.path.basename(f)[:-3]] = (d['TECH'], d['NOTE'] + COMMON)
NA = {}
