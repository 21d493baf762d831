"""Replay candidate inputs on the real code.

usage: python -m sx.replay FILE.json   (prints one JSON line: the first candidate
that violates the property, or null)
"""
import json
import os
import shutil
import signal
import sys
import tempfile

LIMIT = 20      # seconds; a run of the real code takes a fraction of one
HERE = os.path.dirname(os.path.abspath(__file__))


def setup(repo):
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.path.join(HERE, 'fake'))
    sys.path.insert(0, repo)
    import warnings
    warnings.simplefilter('ignore')
    import numpy
    real = numpy.empty, numpy.empty_like

    def dirty(f):
        # memory that happens not to be zero
        def g(*a, **k):
            r = f(*a, **k)
            if isinstance(r, numpy.ndarray) and r.dtype.kind == 'f':
                r.fill(-7.0625e11)
            return r
        return g
    numpy.empty, numpy.empty_like = dirty(real[0]), dirty(real[1])


def one(prop, instance, kwargs, values, root, repo, known=()):
    from . import env

    def late(*a):
        raise env.Violated('no answer within %d s' % LIMIT)
    signal.signal(signal.SIGALRM, late)
    signal.alarm(LIMIT)
    E = env.RealEnv(values, root, repo)
    E.known = set(known)
    cwd = os.getcwd()
    try:
        os.chdir(E.root)
        prop.harness(E, **kwargs)
        return None
    except env.Violated as v:
        return v.msg
    except env.Reject:
        return 'reject'
    finally:
        signal.alarm(0)
        os.chdir(cwd)
        E.close()


def main(path):
    with open(path) as f:
        job = json.load(f)
    repo = os.environ.get('SX_REPO', '/repo')
    setup(repo)
    sys.path.insert(0, os.path.dirname(HERE))
    from checks import registry
    prop = registry.get(job['property'])
    root = tempfile.mkdtemp(prefix='sxreplay')
    log = []
    try:
        import faulthandler
        faulthandler.enable()
        if 'batch' in job:
            for b in job['batch']:
                held, errors, fails = 0, [], []
                for vals in b['candidates']:
                    try:
                        msg = one(prop, b['instance'], b['kwargs'], vals, root, repo, job.get('known', ()))
                    except Exception:
                        import traceback
                        errors.append('%s: harness error %s' % (b['instance'], traceback.format_exc()[-600:]))
                        continue
                    if msg is None:
                        held += 1
                    elif msg != 'reject' and not fails:
                        fails.append({'instance': b['instance'], 'kwargs': b['kwargs'], 'msg': msg, 'values': vals})
                        break
                print(json.dumps({'instance': b['instance'], 'held': held, 'errors': errors, 'fails': fails}), flush=True)
            return
        for k, vals in enumerate(job['candidates']):
            try:
                msg = one(prop, job['instance'], job['kwargs'], vals, root, repo, job.get('known', ()))
            except Exception as e:
                import traceback
                log.append('candidate %d: harness error %s' % (k, traceback.format_exc()[-600:]))
                continue
            if msg == 'reject':
                log.append('candidate %d: outside the assumptions' % k)
            elif msg is not None:
                print(json.dumps({'candidate': k, 'msg': msg, 'values': vals, 'log': log}))
                return
            else:
                log.append('candidate %d: property holds' % k)
        print(json.dumps({'candidate': None, 'log': log}))
    finally:
        shutil.rmtree(root, ignore_errors=True)


if __name__ == '__main__':
    main(sys.argv[1])
