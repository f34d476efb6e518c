"""Write MANIFEST.json from the rules that exist (run: python3 tools/mkmanifest.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'C01': 'alias and effect analysis: roots of every written object in the gated value graph',
    'C02': 'effect analysis of every plotting entry point over the gated value graph',
    'C03': 'guard domination of file/window effects and value-graph form of file names',
    'C04': 'row-alignment dataflow: columns reduced to (base column, row index) normal forms',
    'C05': 'guarded-selection dataflow: path conditions of every kept row, linear entailment',
    'C06': 'unit/typestate dataflow (air or vacuum) on the gated value graph',
    'C07': 'algebraic normal form of the formula in the source compared with the published one',
    'C08': 'row-alignment dataflow of paired stores and raise-after-store ordering',
    'C09': 'provenance dataflow: reported values reduced to selections of inputs',
    'C10': 'guard domination: accepting stores entail every required comparison',
    'C11': 'value-graph equality of returned and stored values and metric formulas',
    'C12': 'frame-condition dataflow on setters: final value per argument presence',
    'C13': 'freshness dataflow: derived attributes as functions of final settings',
    'C14': 'quantity-kind (unit) inference over the value graph',
    'C15': 'writer/reader table matching over serialisation dataflow',
    'C16': 'nondeterminism source/sink analysis over the resolved call graph',
    'C17': 'basis-tag (typestate) dataflow on coefficient values',
    'C18': 'definite assignment of names and attributes under path conditions',
    'C19': 'argument forwarding dataflow at delegation call sites',
    'C20': 'nullness dataflow with path conditions',
    'C21': 'exhaustive dispatch: residual path condition of each option',
    'C22': 'store-before-reject ordering over path conditions',
    'C23': 'effect analysis of container mutations and value-graph form of accessors',
    'C24': 'loop-progress (ranking) argument on loops with random draws',
    'C25': 'dataflow of one-to-one matching structure',
    'C26': 'row-alignment dataflow and formula normal form of Hough points',
    'C27': 'symbolic call histories of the generator, polynomial identity of the model inverted',
    'C28': 'call-binding check of every resolved call site including the examples',
    'C29': 'dataflow of known pairs into every trial fit',
    'C30': 'loop-carried dependence and window provenance of each refined position',
    'C31': 'row-space dataflow of indices and masks, linear entailment of the candidate selection',
    'C32': 'linear entailment of the draw size, exact case analysis of the bin index over all positions of a peak relative to the edges',
    'C35': 'forward dataflow from every parameter to the effects and results of the function',
    'C36': 'symbolic value numbering of the cost per polynomial type, compared with the reference form factor by factor',
    'C34': 'row-space dataflow and value flow into everything drawn, structural comparison of the two libraries',
    'C33': 'value flow of the degree and starting solution into every polynomial fit, linear entailment of the number of points',
}
NA = {
    'N01': 'whether RANSAC finds the true solution is a probabilistic statement about run-time data and random draws; no static argument bounds it',
    'N02': 'optimality of the robust refit depends on the numerical behaviour of an iterative scipy optimiser on run-time data',
    'N03': 'accuracy of peak centroids depends on the convergence of a least-squares fit on run-time data',
    'N04': 'round-trip accuracy is a numerical tolerance over continuous inputs, including the iteration of the index, which source analysis cannot bound',
    'N05': 'accuracy of the inversion of a polynomial is a numerical property of root finding on run-time coefficients',
    'N06': 'running time and memory depend on run-time sizes and the host',
}
NOTE = ('Sound up to the modelling of Python and of numpy/scipy/plotting calls in '
        'rsa/core.py and rsa/interp.py; obligations the abstraction cannot settle '
        'are listed as undecided in the evidence and are never reported as violations.')
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    d = json.loads(line)
    p = d['id']
    if os.path.exists(os.path.join(HERE, 'rsa', 'rules', p.lower() + '.py')):
        checks.append(dict(
            property=p, quick_cmd='python3 -m rsa ' + p,
            thorough_cmd='VERIF_TIER=thorough python3 -m rsa ' + p,
            technique='static analysis: ' + TECH[p], level='other',
            level_note=NOTE))
    else:
        na.append(dict(property=p, reason=NA.get(p, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not applicable')
