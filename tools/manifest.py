"""Writes MANIFEST.json (run by hand)."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
TECH = {
 'C01': ('Router.tla', 'TLC explores every rule set x path (tree walk refines rule-by-rule choice) and emits the selected rule and wildcard texts, replayed into RadiRouter.resolve; random rule families resolved by the code are judged by the spec'),
 'C02': ('Router.tla', 'TLC enumerates registration histories x verbs with the status, handler and Allow set, replayed through WSGI calls; random histories judged by the spec'),
 'C03': ('Wsgi.tla', 'TLC enumerates handler programs x methods x statuses through the response lifecycle machine; replayed through a validating WSGI gateway and judged by the spec'),
 'C04': ('BodyReader.tla, Chunked.tla', 'TLC enumerates bodies x read divisions against the framing machine; traces replayed with short-read streams and recorded reads judged by the spec'),
 'C05': ('Chunked.tla, Limits.tla', 'TLC enumerates chunked encodings, damages and limits; replayed into the body reader, consumed bytes and outcome judged by the spec'),
 'C06': ('Multipart.tla', 'TLC enumerates section layouts x divisions of the stream; replayed into the parser, compared with the undivided parse of the spec'),
 'C07': ('Multipart.tla', 'TLC enumerates forms and their encodings; replayed through the request API, values judged by the spec'),
 'C08': ('ThreadStore.tla', 'TLC explores every interleaving of the thread-store model; the real request/response run under a scheduler that enumerates and samples interleavings, outcomes judged by the spec'),
 'C09': ('History.tla', 'TLC enumerates request histories; replayed on one application and compared with the fresh-application answer of the spec; retention observed through weak references'),
 'C10': ('Apps.tla', 'TLC enumerates nestings and alternations of applications; replayed, every observation judged by the spec'),
 'C11': ('Router.tla', 'TLC enumerates the reachable abstract routers with the answer to each probe and the effect of each edit; the code is walked through the same graph with state merging, long random histories judged by the spec'),
 'C12': ('Multipart.tla', 'TLC enumerates damages of well-formed forms; replayed through WSGI with every reading order, outcome class judged by the spec'),
 'C13': ('Multipart.tla, BodyReader.tla', 'TLC enumerates operation sequences on upload views; replayed into the real proxy, results judged by the spec'),
 'C14': ('Headers.tla', 'TLC enumerates header-store operation sequences x statuses; replayed through WSGI, emitted header list judged by the spec'),
 'C15': ('Cookies.tla', 'TLC enumerates cookie values, keys and tamperings over an abstract signature; replayed into set_cookie/get_cookie with an instrumented unpickler'),
 'C16': ('StaticPath.tla', 'TLC enumerates path spellings over a model tree and decides containment; replayed against a scratch tree with opened files recorded'),
 'C17': ('Ranges.tla', 'TLC enumerates range headers x file sizes and conditional dates; replayed into static_file, responses judged by the spec'),
 'C18': ('UrlEnc.tla', 'TLC enumerates query strings over the significant characters and emits the decoded pairs; replayed into the request, random texts judged by the spec'),
 'C19': ('Router.tla', 'TLC proves the round trip of the canonical URL for every small rule and path; each case and random rules replayed through Route.url and RadiRouter.resolve, built URLs judged by the spec'),
 'C20': ('ErrorPage.tla', 'TLC enumerates error situations x injected texts through the page model; rendered pages tokenised and judged by the spec'),
}
NOTE = {}
exec(open(os.path.join(ROOT, 'tools', 'notes.py')).read()) if os.path.exists(os.path.join(ROOT, 'tools', 'notes.py')) else None
checks, na = [], []
for p, (m, t) in sorted(TECH.items()):
    if not os.path.exists(os.path.join(ROOT, 'checks', p.lower() + '.py')):
        na.append(dict(property=p, reason='planned (see DESIGN.md); its check is not built yet'))
        continue
    checks.append(dict(property=p, quick_cmd='python3 run.py ' + p, thorough_cmd='VERIF_TIER=thorough python3 run.py ' + p,
        evidence_file='evidence/%s.json' % p, technique='TLA+ specification (%s) checked with TLC, bound to the code: %s' % (m, t),
        level='model_checking', level_note=NOTE.get(p, 'Exhaustive on the specification within the bounds in DESIGN.md; every emitted behaviour is replayed into the real code and sampled recordings of the real code are checked against the specification. Trusts TLC, CPython, the harness drivers in vf/ and checks/.')))
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', hooks=dict(guard='none', enable='no hooks are needed: the checks observe public behaviour only', source_commits=[]),
  checks=checks, not_applicable=na, notes='TLA+ with TLC; see DESIGN.md'), open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))
