"""Regenerates MANIFEST.json from the list of properties."""
import json
NA = {
 'C27': 'Convergence of the discretised transit depth is a limit statement about sums over arbitrarily fine grids of non-linear '
        'per-pixel weights; an interval enclosure of such a sum does not shrink with the grid, so no static argument in reach bounds it. '
        'The structural parts (per-pixel weight, normalisation, geometry) are decided under C02, C03, C04 and C26.',
 'C28': 'Statistical shape of random draws over many seeds is a property of the sampling library and of long runs; the static part '
        '(which distribution is called with which parameters, and how each draw is turned into a feature) is decided under C18, C19 and C20.',
}
T = {
 'geometry': 'abstract interpretation (interval x symbolic-term x unit domain) of the geometry code against the stated law',
 'heap': 'abstract interpretation with an abstract heap; state snapshots before/after compared on every abstract trace',
 'draw': 'abstract interpretation with an abstract random generator (provenance of every draw, draws as free bounded inputs)',
 'unit': 'relational abstract interpretation: the same abstract inputs in two units must give the same abstract result',
 'exc': 'abstract interpretation of every public operation; definite exceptions on a feasible trace are reported',
 'law': 'abstract interpretation (interval x symbolic-term domain) of the code against the stated law',
}
K = dict(C01='law', C02='law', C03='geometry', C04='geometry', C05='geometry', C06='geometry', C07='heap', C08='heap', C09='heap',
         C10='draw', C11='law', C12='law', C13='heap', C14='law', C15='law', C16='law', C17='law', C18='draw', C19='draw', C20='draw',
         C21='unit', C22='law', C23='exc', C24='law', C25='draw', C26='law', C29='law', C30='heap')
NOTE = ('Static: /repo\'s source is parsed and interpreted abstractly, never executed. An alarm needs an obligation that is definitely false '
        'on a whole cell of inputs on a feasible abstract trace; obligations the abstraction cannot decide are counted as undecided in the '
        'evidence and never raise an alarm. Coverage is the enumerated input cells (whole parameter boxes for the obligations marked whole-box, '
        'small cells elsewhere) on small grids and short histories; it is not a proof for all inputs. Trusted: the interpreter and its '
        'models of numpy, astropy, jax/tinygp, matplotlib/cartopy, and the harness that states the obligations.')
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
m = dict(version=1, setup_cmd='python3-vt -c "import vsa.check"',
         hooks=dict(guard='none', enable='no hooks: the checks read the source of /repo only'),
         checks=[], not_applicable=[])
for p in props:
    i = p['id']
    if i in NA:
        m['not_applicable'].append(dict(property=i, reason=NA[i]))
        continue
    m['checks'].append(dict(property=i, quick_cmd='python3-vt -m vsa.check %s --tier quick' % i,
                            thorough_cmd='python3-vt -m vsa.check %s --tier thorough' % i,
                            evidence_file='evidence/%s.json' % i, technique=T[K[i]], level='other', level_note=NOTE))
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']))
