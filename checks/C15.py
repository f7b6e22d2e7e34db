"""C15: gRPC interceptors."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
from common import *
from javabuild import *

SERVER = ['good', 'good', 'good2', 'bad', 'bad2', 'unimpl', 'reply', 'half', 'ready', 'cancel', 'complete', 'close']
CLIENT = ['good', 'good', 'good2', 'bad', 'bad2', 'unimpl', 'reply', 'half', 'cancel', 'request']

def body(run):
    ws = JavaWS(run)
    cases, st = run.tlc('Interceptors', 'InterceptorsDeep.cfg' if run.thorough else 'Interceptors.cfg')
    scripts = []
    for _ in range(20000 if run.thorough else 4000):
        side = run.rng.choice(['server', 'client']); pool = SERVER if side == 'server' else CLIENT
        w = [run.rng.choice([1, 1, 8]) if e in ('good', 'good2') else run.rng.choice([0, .3, 1]) for e in pool]; w[0] += .1
        scripts.append(dict(side=side, ops=[dict(c=run.rng.choice([1, 2]), e=run.rng.choices(pool, w)[0]) for _ in range(run.rng.randint(5, 16))]))
    path = run.p('scripts.json')
    with open(path, 'w') as f: json.dump(scripts, f)
    more, st2 = run.tlc('Interceptors', 'InterceptorsScript.cfg', env={'SCRIPTS': path})
    run.log('specification: %d histories enumerated, %d longer ones' % (len(cases), len(more)))
    cases += more
    for c, o in zip(cases, ws.ask('drv.GrpcDriver', [dict(side=c['side'], hist=c['hist']) for c in cases])):
        run.count('traces_validated_against_impl'); run.count('events', len(c['hist']))
        want = dict(seen=c['seen'], closes=c['closes'], raised=c['raised'])
        if o != want: run.violation('interceptor', side=c['side'], history=c['hist'], expected=want, got=o)
    for c in cases[::len(cases) // 4][:4]: run.sample(c)
    run.cov['rule'] = 'every history of %d events over two interleaved calls, server and client side, and %d random longer ones, replayed through the real interceptors on real gRPC call and listener classes' % (5 if run.thorough else 4, len(scripts))

if __name__ == '__main__': main('C15', 'model_checking', body)
