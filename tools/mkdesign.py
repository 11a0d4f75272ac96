"""Writes the per-property part of DESIGN.md from the contract files."""
import ast, json, os, re, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
out = []
for p in props:
    i = p['id']
    src = open('%s/contracts/%s.py' % (H, i)).read()
    doc = ast.get_docstring(ast.parse(src)) or ''
    doc = re.sub(r'^C\d\d: [^\n]*?\.\n', '', doc).strip() if len(
        doc.splitlines()) > 1 else ''
    units = [u for u in re.findall(r"PROP\.unit\('([^']*)'", src)]
    dyn = [u for u in re.findall(r"PROP\.dyn\('([^']*)'", src)]
    out += ['### %s %s' % (i, p['title']), '']
    if doc:
        out += [doc, '']
    extra = EXTRA = {
        'C05': 'evalRPoly (any number of finite and infinite roots: product '
        'over the finite ones), evalTF for (zeros, poles, gain) and '
        '(num, den), any number of coefficients, any point or array of '
        'points. Where a denominator vanishes the proof assumes it does not.',
        'C07': 'The six conversions and relab.db are proved to be the stated '
        'logarithms / exponentials for scalars, vectors and matrices of any '
        'size, with -inf exactly at 0 for the forward ones, and to be '
        'inverse to each other (lemmas over 10**log10(t) = t).',
        'C22': 'is_negligible, chop, eps, rms, rmsGain for scalars, vectors '
        'and matrices of any size, real and complex; mdot for 1 to 6 factors '
        '(bounded in the number of factors, not in their contents), the '
        'association of the product from the left included.'}
    if i in extra:
        out += [extra[i], '']
    out += ['Contracts (proof units): ' + '; '.join(units) + '.', '',
            'Run time (bounded, not counted as proved): ' + '; '.join(dyn) +
            '.', '']
cat = json.load(open(H + '/tools/catches.json'))
rows = []
for n in sorted(os.listdir(H + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (H, n)))
    rows.append('| %s | %s | %s | %s |' % (n, m['what_it_breaks'], m['needs'],
                                           cat.get(n, '?')))
f = H + '/DESIGN.md'
s = open(f).read()
def put(tag, text):
    global s
    a, b = '<!-- %s -->' % tag, '<!-- end %s -->' % tag
    i, j = s.index(a), s.index(b)
    s = s[:i] + a + '\n' + text + '\n' + s[j:]
put('properties', '\n'.join(out))
put('bugs', '\n'.join(['| change | what it breaks | needs | outcome |',
                       '|---|---|---|---|'] + rows))
open(f, 'w').write(s)
