#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json"""
import json, os
T = {
 'C01': ('generated documents, every position resolved, against a token-walk model', 'The expected context of every position comes from an independent walk over the token list.'),
 'C02': ('generated operation programs, every value\'s size recounted', 'Sizes are recounted from the public tree after each operation of a random program.'),
 'C03': ('generated content, cuts, joins and child patches against a token-list model', 'Results are compared as trees with the model.'),
 'C04': ('generated documents and ranges, slices compared with a token model', 'All kinds of range bounds.'),
 'C05': ('generated documents, ranges and slices; exact accept/refuse and result against a token-splice model', 'The model re-parses the spliced tokens and checks a regular-expression schema.'),
 'C06': ('generated step histories, every result validated by an independent schema', 'Two schemas: Markdown and a synthetic one with sequences, mark rules and marks on all nodes.'),
 'C07': ('generated replacements and histories undone (round trip)', 'Metamorphic: cut, replace, replace back.'),
 'C08': ('generated documents, ranges and marks against a per-node mark model', 'The whole resulting document is compared.'),
 'C09': ('generated documents, ranges and marks against a per-node mark model', 'The whole resulting document is compared.'),
 'C10': ('stateful generated operation sequences against an ordered-map model', 'Set contents, order, iteration and JSON compared after every operation.'),
 'C11': ('generated structural steps against a token-pattern model', 'Accepted steps must only have deleted closing then opening tokens; refused ones are checked the other way around.'),
 'C12': ('generated replace-around steps against a token-splice model', 'Flat gaps within the outer range; exact result.'),
 'C13': ('generated hostile steps and documents through JSON, no-panic oracle with input-unchanged check', 'Runs with overflow checks and debug assertions; crashes that cannot be caught are isolated in a child process.'),
 'C14': ('generated documents and steps against an independent JSON writer, round trips and spelling variants', 'ProseMirror\'s format is re-implemented as an independent writer.'),
 'C15': ('generated corrupted JSON against an independent validator', 'Spellings for which the format does not decide are only checked for panics.'),
 'C16': ('generated step histories, normal-form invariant', 'Predicate evaluated on every document of the history.'),
 'C17': ('generated step logs, differential between replicas with JSON hops and restarts', 'Replicas differ in where values pass through JSON.'),
 'C18': ('generated documents, ranges and callback decisions against a token-walk model', 'Text separators exact where the documented behaviour is unambiguous.'),
 'C19': ('enumerated short and generated long child sequences against a regular-expression matcher', 'All sequences up to length 4 for every node type of the Markdown schema, random longer ones.'),
 'C20': ('generated and mutated Markdown, differential against an independent builder over the CommonMark events', 'Trusts the CommonMark parser.'),
 'C21': ('generated Markdown, soups and random text; validity and normal-form predicates', 'Trusts nothing but the schema model.'),
 'C22': ('generated documents exported and imported again (round trip)', 'Within the plain-text domain stated in the evidence.'),
 'C24': ('generated documents and builder expressions, every node\'s report and rebuilt copies against the model tree', 'Kinds are taken from the schema table of the model.'),
 'C25': ('generated pairs of values, equal or differing in one place, compared by the code and by the model', 'Equality both ways, inequality and hashes.'),
 'C26': ('generated operations that are refused, the stated reason looked up in the model', 'Only the truth of the reason is decided, not which of several true reasons is named.'),
 'C23': ('generated Markdown imported, exported, imported (fixed point)', 'Texts which the CommonMark parser itself misreads are left out.'),
}
NA = {}
checks = []
for k in sorted(T):
    t, n = T[k]
    checks.append(dict(property=k, quick_cmd=f'./check.sh {k} quick', thorough_cmd=f'./check.sh {k} thorough', technique='property-based testing: '+t, level='exploration',
      level_note=n + ' Search over generated inputs, not a proof; assumptions and bounds are listed in the evidence file.'))
props=[json.loads(l)['id'] for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'))]
na=[dict(property=p, reason=NA.get(p,'check not built yet')) for p in props if p not in T]
m=dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
  notes='One harness crate in harness/; check.sh builds it against /repo and runs one property. No hooks are needed in /repo.')
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','MANIFEST.json'),'w'), indent=1)
