import json
L=[json.loads(l) for l in open('/verif/properties.jsonl')]
T={
'C01':'stateful PBT: generated fit/query histories vs. counts recomputed from the instances',
'C02':'stateful PBT: structural invariant over every reachable hierarchy',
'C03':'model-based PBT: reference COBWEB enumerating every legal next hierarchy',
'C04':'differential PBT: reference category utility on executed operations',
'C05':'PBT: independent best-path oracle for the returned leaf',
'C06':'stateful PBT: before/after snapshots around generated queries, interleaving metamorphic relation',
'C07':'PBT: batch statistics in exact arithmetic vs. generated update/combine trees',
'C08':'PBT: reference distribution recomputed from counts',
'C09':'PBT: completion oracle per categorized leaf',
'C10':'metamorphic PBT: paired histories differing in hidden attributes',
'C11':'metamorphic PBT: unit changes and nominal/numeric differential runs',
'C12':'PBT: fact-set isomorphism between instance and stored increment',
'C13':'PBT: fact containment oracle on completed structured queries',
'C14':'PBT: exhaustive neighbourhood oracle over generated mapping problems',
'C15':'round-trip PBT over generated nested instances and pipelines',
'C16':'round-trip PBT over generated lists and corrupted orders',
'C17':'PBT: reference recursive conversion',
'C18':'PBT: reference split sequence over generated trees',
'C19':'PBT: recorded call protocol, blindness metamorphic relation, reference scores',
'C20':'PBT: reference export and parsed output files',
'C21':'fault-injecting PBT: invalid parts inserted into generated instances, state snapshots',
'C22':'differential PBT: cleared vs. new tree, batch vs. incremental, baseline vs. overall statistics',
'C23':'PBT: frequency bounds over generated weight lists',
'C24':'PBT: generated limits vs. full dataset prefix',
'C25':'stateful PBT: copies vs. originals under diverging updates',
'C26':'stateful PBT: several trees and preprocessors used alternately, each vs. its own model and snapshots',
'C27':'differential PBT: the same generated session run twice under one seed',
'C28':'metamorphic PBT: attributes of generated instances permuted',
'C29':'PBT: reference substitution over generated nested attributes and mappings',
}
NOTE='Generated-input search with shrinking over the domain stated in DESIGN.md; a pass means no violation among the cases counted in the evidence file. Trusts the reference oracle in /verif/pbt and Hypothesis.'
m=dict(version=1,setup_cmd='/opt/venv/bin/python check.py --selftest',
 checks=[dict(property=d['id'],quick_cmd='/opt/venv/bin/python check.py %s --tier quick'%d['id'],
  thorough_cmd='/opt/venv/bin/python check.py %s --tier thorough'%d['id'],
  evidence_file='evidence/%s.json'%d['id'],
  technique=T[d['id']],level='exploration',level_note=NOTE) for d in L],
 not_applicable=[],notes='No hooks in /repo: all checks drive the public API. VERIF_SEED selects the generated cases.')
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
