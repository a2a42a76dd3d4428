#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed properties."""
import json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRACE = 'TLA+ trace validation (TLC) of recorded executions against an explicit specification'
LEVELS = {}
def c(ids, technique, level, note):
    for i in ids.split():
        LEVELS[i] = (technique, level, note)
c('S01 S02 S03 S04 S05 S06 S07', TRACE + ' (spec/SymAlg.tla)', 'model_checking',
  'Randomly generated operation histories over a workspace of expressions run on the extension built from /repo; TLC follows every recorded step in SymAlg.tla (values as truncated power series with error bounds). Sampled, not exhaustive.')
c('G01 G02 G03 G04 G05 G06', TRACE + ' (spec/EqGraph.tla)', 'model_checking',
  'Randomly generated equation systems are entered into the extension built from /repo and built in vector and scalar form, with and without optimisation; TLC follows every addition in EqGraph.tla and executes every produced assignment list next to the solution of the equations entered. Sampled, not exhaustive.')
c('P01 P02 P03 P04', 'TLA+ evaluation (TLC) of executed printed texts against an explicit semantics of expressions', 'translation_validation',
  'Random expressions printed by the extension built from /repo; texts evaluated by Python, gcc, gfortran, or parsed and given their meaning by spec/LangSem.tla (Matlab, Modelica); TLC compares with spec/Sem.tla under rigorous error bounds. Sampled, not exhaustive.')
c('W01 W02 W03 W04 W05 W06', 'TLA+ evaluation (TLC) of executed generated programs against an explicit semantics of equation systems (spec/ProgSem.tla)', 'translation_validation',
  'Random models written as programs by the extension built from /repo; the programs are run (Python, C, Fortran; W06: through the written Python wrappers) or read and executed by spec/LangProg.tla (Matlab, Modelica), and every value they return is compared by TLC with the solution of the equations entered. Sampled, not exhaustive.')
c('M02 M03 M04 M05 M06 M07 M08 M09', TRACE + ' (spec/Mbs.tla)', 'model_checking',
  'Random multibody models entered through the public interface made from /repo; equations generated, written as Python and called; TLC follows every call in Mbs.tla, which states the mechanics (positions as power series in time, virtual work) independently of the formulations. Sampled, not exhaustive.')
c('M01', TRACE + ' (spec/Assembly.tla)', 'model_checking',
  'Random sequences of assembly calls (bodies, frames, joints, loads, sensors, visualisations, expressions, parameters; valid, invalid and with clashing names) on the public interface made from /repo; TLC decides for every call whether it must be accepted or refused, that a refused call leaves the model untouched, and what an accepted one adds; then that the generated equations have the coordinates of the assembled joints. Sampled, not exhaustive.')
PENDING = 'On this tree no model with a constraint (addConstraint) yields a program in any formulation: generation fails with shape errors for one locked axis, with "No States to select" (explicit, recursive: the constraints stay implicit equations, which the writers refuse) or with a TypeError (order-n, a frame on the world) for several; there is no behaviour to compare with a specification.'
def main():
    props = [json.loads(l)['id'] for l in open(os.path.join(VERIF, 'properties.jsonl'))]
    m = dict(version=1, setup_cmd='python3 tools/build.py', checks=[], not_applicable=[],
             notes='Specifications in TLA+ (spec/), checked with TLC. bin/check ID [quick|thorough]; bin/replay FILE re-executes a reported input.')
    for p in props:
        if p in LEVELS:
            t, l, n = LEVELS[p]
            m['checks'].append(dict(property=p, quick_cmd='bin/check %s quick' % p, thorough_cmd='bin/check %s thorough' % p,
                                    evidence_file='evidence/%s.json' % p, technique=t, level=l, level_note=n))
        else:
            m['not_applicable'].append(dict(property=p, reason=PENDING))
    json.dump(m, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
    print(len(m['checks']), 'checks')
main()
