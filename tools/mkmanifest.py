#!/opt/venv/bin/python
"""Writes MANIFEST.json from properties.jsonl and the property modules that exist."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

NOTES = {
    'C04': 'differential against the 80-bit reference, and algebraic laws',
    'C09': 'differential against pyproj/PROJ geodesics (independent C++ implementation), plus laws',
    'C10': 'differential against pyproj/PROJ geodesics, plus inverse/direct round trip',
    'C24': 'model-based histories of public calls, compared with a pristine process',
    'C18': 'metamorphic: batch against one-at-a-time calls',
    'C19': 'differential: the same input expressed in both axis conventions',
    'C20': 'differential between position types and between the two APIs',
    'C25': 'metamorphic: shifted, mirrored and rotated inputs',
    'C22': 'invariants of equality, and an exact model of isclose/allclose',
    'C30': 'metamorphic: the same problem on an Earth model of another size',
    'C31': 'metamorphic: the same call written in another way',
    'C32': 'generated thread schedules (line and bytecode preemption), compared with each task alone',
    'C33': 'generated fault points, compared with a process without the fault',
    'C34': 'round trip through copy, pickle and the printed form',
    'C35': 'metamorphic: some positions replaced by NaN',
    'C37': 'differential: generated calls in a new interpreter started with generated options',
    'C38': 'metamorphic: the same series of calls with objects of derived classes',
    'C39': 'algebraic laws, and componentwise long-double arithmetic as the model',
    'C36': 'metamorphic over process settings; invariant: settings as before, no warnings',
    'C23': 'exhaustive over names and generated spellings against an independent table',
}
DEFAULT = 'differential against an independent 80-bit long-double reference, and algebraic laws'


def main():
    props = [json.loads(line) for line in open(os.path.join(VERIF, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        pid = p['id']
        if os.path.exists(os.path.join(VERIF, 'pbt', 'props', pid.lower() + '.py')):
            checks.append(dict(
                property=pid,
                quick_cmd='./run_check.py %s --tier quick' % pid,
                thorough_cmd='./run_check.py %s --tier thorough' % pid,
                evidence_file='evidence/%s.json' % pid,
                technique='property-based testing (Hypothesis generators and shrinking): '
                          + NOTES.get(pid, DEFAULT),
                level='exploration',
                level_note='Held on every generated case (counts in the evidence file); says '
                           'nothing about inputs not generated. Trusts the x86 80-bit reference '
                           'in pbt/ref.py, numpy, scipy and geographiclib of /opt/venv.'))
        else:
            na.append(dict(property=pid, reason='check under construction'))
    man = dict(version=1,
               setup_cmd='/opt/venv/bin/python tools/selfcheck.py',
               checks=checks, not_applicable=na,
               notes='run_check.py PROP [--replay FILE]; failures are shrunk and written to '
                     '.work/replays; see DESIGN.md.')
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as fid:
        json.dump(man, fid, indent=1)
        fid.write('\n')


if __name__ == '__main__':
    main()
