"""Writes MANIFEST.json."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'lib'))
import doc, props
TECH = 'TLA+ specification (TLC): trace validation of the real derives'
NOTE = {}
NOTE_DEFAULT = ('TLC decides every recorded call (derive outcome, display, parse, regex) of curated and seeded random declarations compiled from /repo against the '
                'specification; only generated declarations, values and inputs are observed. Trusted: TLC, rustc, std formatting as transcribed in FormatText.tla.')
def main():
    ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
    checks, na = [], []
    for i in ids:
        if i in props.PROPS:
            checks.append(dict(property=i, quick_cmd='bin/check %s --tier quick' % i, thorough_cmd='bin/check %s --tier thorough' % i,
                               technique=doc.TECHNIQUE.get(i, TECH), level='model_checking', level_note=doc.NOTE.get(i, NOTE_DEFAULT)))
        else:
            na.append(dict(property=i, reason='the check is not built yet'))
    m = dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=na,
             notes='No hooks: the public API of the derives exposes everything the specification talks about. Commits in /repo are fix: commits only (known_findings.json).')
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
main()
