"""Writes MANIFEST.json. Run after a property module was added."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'deterministic simulation: seeded search over '
CHECKS = {
    'C01': ('histories of registrations and lookups (related rules in every order, lookups in between, two-thread schedules), every answer compared with matching each rule on its own', ''),
    'C02': ('histories of method-table edits and requests (every registration interface, refused registrations, two-thread schedules), compared with a model of the tables', ''),
    'C03': ('handler, hook and error-handler programs with failures at every point and clients that leave, driven by a PEP 3333 server and checked against a reference model', ''),
    'C04': ('read fragmentations, pipelining, early EOF, read and disk errors against a byte-exact oracle', ''),
    'C05': ('chunkings, read fragmentations, framing damage and I/O errors against a reference decoder', ''),
    'C06': ('divisions of (cut or damaged) multipart bodies into reads, compared with delivery in one piece', ''),
    'C07': ('forms, boundaries, framings and read fragmentations against the submitted fields', ''),
    'C08': ('thread schedules of 2-3 concurrent requests on one application (preemption at lines and bytecodes of the framework), against the same requests served alone', ''),
    'C09': ('histories of 3-6 requests (crashes, I/O errors, client aborts) on one application; the last answer is compared with that of a fresh application, and growth of retained objects is measured', ''),
    'C10': ('2-3 applications in one process: nested calls, interleaved histories and two-thread schedules, against each application alone', ''),
    'C11': ('edit histories (registrations accepted and refused, removals, hooks) with check points: the edited application, one freshly built from the survivors, and rule-by-rule matching must agree', ''),
    'C12': ('damaged bodies and transports, every run checked for 4xx-or-success and complete parts', ''),
    'C13': ('body sizes around the limits, framings, fragmentation and disk errors, bytes read and memory accounted', ''),
    'C15': ('cookie sessions: every way of setting, a client model, foreign cookies, and an adversary that alters cookies in transit; everything handed to an unpickler is recorded', ''),
    'C16': ('requested names, roots, working directories and disk faults over a real scratch tree of decoys; every opened path recorded by an audit hook', ''),
    'C17': ('file stores, Range and date headers, clocks, time zones, interleaved and threaded streaming and file faults, against a reference reading of the header and the stored bytes', ''),
    'C20': ('error histories of one application (every kind of error page, hostile request text, unreadable template, two-thread schedules), pages parsed and compared with those of harmless requests', ''),
}
NA = {}
PENDING = ['C01', 'C02', 'C11', 'C15', 'C16', 'C17', 'C20']
NOT = {
    'C14': 'pure function of one string (query parsing and quoting): no concurrency, time, I/O, faults or history for a simulator to control',
    'C18': 'pure function of rule and arguments: nothing for a simulator to schedule or fail',
    'C19': 'pure functions of values in one call: nothing for a simulator to schedule or fail',
}


def main():
    checks = []
    for p in sorted(CHECKS):
        tech, note = CHECKS[p]
        checks.append(dict(property=p, quick_cmd='./run.sh check %s --tier quick' % p, thorough_cmd='./run.sh check %s --tier thorough' % p,
                           technique=TECH + tech, level='exploration',
                           level_note=note or 'seeded sampling of plans (fixed number of runs per tier); a violation outside what the generators reach is not found; see DESIGN.md'))
    na = [dict(property=p, reason=r) for p, r in sorted(NOT.items())]
    na += [dict(property=p, reason='check not built yet') for p in PENDING if p not in CHECKS]
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=sorted(na, key=lambda d: d['property'])), f, indent=1)
        f.write('\n')


main()
