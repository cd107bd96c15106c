"""Source of /verif/MANIFEST.json (run to regenerate)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 'C01': 'threads of one application switched at any line or bytecode of the library; oracle is the same request served alone by a fresh application.',
 'C02': 'histories of additions and look-ups (threads between additions); oracle is a freshly built map.',
 'C03': 'simulated keep-alive transport with failures at any byte; oracle is a byte model of the body.',
 'C04': 'reference server abandoning or failing at any point; oracle counts the cleanups of every resource.',
 'C05': 'reference PEP 3333 server as protocol monitor; oracle is the byte content supplied.',
 'C06': 'middleware threads against a process replacing the files, with I/O faults; oracle is the table of versions that existed.',
 'C07': 'caches revalidating a changing resource over a simulated clock; oracle is the version model.',
 'C08': 'sources that fragment, limit and fail at any position; oracle is cutting the full data at once.',
 'C09': 'failures at every layer, concurrent with healthy requests; oracle is the resolution-order model.',
 'C10': 'random server-gateway programs; oracle is the reference server.',
 'C11': 'cookie histories of several clients on a simulated clock with damaged headers; oracle is a jar model.',
 'C12': 'clock jumps and time zones; oracle is email.utils on the simulated instant.',
 'C13': 'uploads and encoders over faulty files; oracle is a byte model and an independent multipart parser.',
 'C15': 'a client following redirects through a changing, failing site; oracle is a browser model.',
 'C16': 'histories of view operations by several holders with refused operations; oracle is a content model and an independent header parser.',
 'C17': 'histories of registrations, builds and failed builds over shared parts, beside requests; oracle is a model of what each builder had been told.',
 'C18': 'readers on several threads and request objects, malformed fields and attempted changes; oracle is a model of the request that was sent.',
 'C14': 'histories of body operations with failing producers; oracle is a list-of-bytes model.',
}
PURE = 'Pure function of its arguments: no scheduling, clock, I/O, randomness or multi-party behaviour for a simulator to control; deciding it would mean plain input generation, a different technique.'
checks, na = [], []
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'dst/worlds/%s.py' % i.lower())):
        checks.append({
            'property': i, 'quick_cmd': './check.py %s' % i, 'thorough_cmd': './check.py %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'deterministic simulation with fault injection (seeded search over schedules and faults)',
            'level': 'exploration',
            'level_note': 'Seeded random search, not exhaustive: ' + NOTE[i] + ' Real library code from the working tree; server, transport, clock and faults are simulated; every failure is minimised and replayable.',
        })
    elif i in NOTE:
        na.append({'property': i, 'reason': 'check under construction'})
    else:
        na.append({'property': i, 'reason': PURE})
doc = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -c "import verktyg"', 'checks': checks, 'not_applicable': na,
       'notes': 'No hooks in /repo: every seam is an argument of the library or a standard-library name replaced before import. Replay: ./check.py --replay FILE.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(doc, f, indent=1)
    f.write('\n')
