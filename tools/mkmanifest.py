"""writes MANIFEST.json from properties.jsonl and the modules in sa/props"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
TECH = {
 'C01': 'abstract interpretation: value numbering over gated SSA of the engine step, index-space typing of masks',
 'C02': 'abstract interpretation: index-space provenance of parent indices through masks and concatenation',
 'C03': 'abstract interpretation: provenance of ownership and relevancy masks across iterations',
 'C04': 'abstract interpretation: predicate equivalence of the cut-off mask; loop-exit analysis',
 'C05': 'typestate analysis of the surface protocol with path conditions',
 'C06': 'typestate and value-number equivalence of re-used versus fresh objects',
 'C07': 'abstract interpretation of frame composition over assembly trees, alias analysis',
 'C08': 'value numbering of accessors after setters; alias/ownership analysis of arrays',
 'C09': 'value numbering (random interpretation) of intersections against the surface equations',
 'C10': 'value numbering of aperture predicates against their documented form',
 'C11': 'value numbering of normals against the gradient of the surface; index-space typing',
 'C12': 'dependence (non-interference) analysis over index spaces',
 'C13': 'value numbering of the optics functions against the physical laws',
 'C14': 'value numbering and index-space typing of outgoing bundles; effect analysis',
 'C15': 'abstract interpretation of the accountant over call sequences; alias/effect analysis',
 'C16': 'alias and effect (ownership) analysis: in-place writes reaching caller arrays',
 'C17': 'index-space typing and provenance of bundle operations',
 'C18': 'value numbering of source formulas; range analysis of the random draws',
 'C19': 'value numbering of matrix builders against closed forms',
 'C20': 'value numbering of mesh points against surface equations and aperture ranges',
 'C21': 'value numbering of heliostat frames against the bisector law',
 'C22': 'abstract interpretation of model constructors: frames, shapes and optics of the parts',
 'C23': 'provenance analysis of plotted points and connections',
 'C24': 'abstract interpretation of listings over assembly trees; effect analysis',
 'C27': 'typestate analysis of drawn meshes and plots over sequences of scene operations; provenance of what is drawn',
 'C28': 'abstract interpretation of the tree widget over assembly shapes and edit histories, with interpreted stand-ins for the toolkit',
}
NOTE = ('Every obligation listed in the evidence was decided from the source by abstract interpretation, for all inputs of the stated form and any number of rays. '
        'Trusted: the numpy/Python model in sa/, exact real arithmetic (rounding is C25), random-interpretation fingerprints over GF(p^2), p=2^61-1 (error probability below 1e-15 per comparison). '
        'Obligations the analysis cannot decide are reported as undecided in the evidence and raise no alarm.')
NA = {
 'C25': 'a bound on accumulated floating-point rounding quantifies over runtime magnitudes (arbitrary frames, curvatures and path lengths); no static error analysis in reach bounds it for unbounded inputs, so it would need runtime tests',
 'C26': 'convergence of an empirical distribution is a statement about runs of a random generator; the static part (which formula maps the uniform draws, and over which ranges) is decided under C14 and C18',
}
PENDING = 'no check built yet'
props = [json.loads(l)['id'] for l in open(root + '/properties.jsonl')]
checks, na = [], []
for p in props:
    if os.path.exists('%s/sa/props/%s.py' % (root, p.lower())):
        checks.append(dict(property=p, quick_cmd='python3 check.py %s quick' % p, thorough_cmd='python3 check.py %s thorough' % p,
            evidence_file='evidence/%s.json' % p, technique='static analysis - ' + TECH[p], level='other', level_note=NOTE))
    else: na.append(dict(property=p, reason=NA.get(p, PENDING)))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
    notes='One checker (check.py, package sa) for all properties; it reads /repo/tracer on every run and never imports or runs it. No hooks in /repo.'),
    open(root + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', [x['property'] for x in na])
