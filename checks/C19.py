"""C19: accepted proto files yield Java code that compiles"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
import C09
from worlds import *
from compile import *
from javacompile import Java

def body(run):
    P = C09.plan(run); t, W, cases, sample = run.thorough, P.W, P.cases, P.sample
    tag = C09.Tags(); tool = Java(run)
    units = (C09.literal_units(sample(W['literals'], 1100), tag, 40) + P.case_units(tag, sample(cases, 900), 40) + P.case_units(tag, sample(cases, 150), 40, 'proto2') + P.matrix_units(tag, P.matrix, 40, 'proto3')
             + P.matrix_units(tag, sample(P.p2, 200), 40, 'proto2') + P.pack_types(tag, W['types'], False) + P.names(tag, 6, 50) + P.layouts(tag, 40) + P.clashes(tag))
    J = run.tlc('MC_World', env={'PART': 'java'}, timeout=120)[0]
    J.sort(key=lambda w: json.dumps(w, sort_keys=True))
    units += [Unit(tag(), p, java_field_file) for p in C09.packs([w for w in J if w['what'] in ('field', 'pair')], 40, lambda w: w['what'])]
    units += [Unit(tag(), [w], lambda p, tg: java_file(p[0], tg)) for w in sample([w for w in J if w['what'] in ('class', 'nested')], 60) + [w for w in J if w['what'] not in ('field', 'pair', 'class', 'nested')]]
    run.log('Java: %d units, %d worlds' % (len(units), sum(len(u.worlds) for u in units)))
    compile_units(run, tool, units)
    run.cov['traces_validated_against_impl'] = run.cov.get('units_java', 0)
    run.cov['rule'] = 'the worlds of C09 and Java\'s own (class names, accessor names, outer classes), generated and compiled with javac in all styles of naming Java classes'
    run.cov['exhaustive'] = False
    run.assumptions += ['a world that protoc or protoc\'s Java generator cannot compile by itself is not counted']

if __name__ == '__main__': main('C19', 'model_checking', body)
