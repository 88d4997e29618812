"""Prove many scenarios in parallel, one process each (development driver)."""
import sys, os, time, json, multiprocessing as mp


def work(args):
    sid, layer, limit = args
    import signal, faulthandler
    faulthandler.register(signal.SIGUSR1)

    class TO(BaseException):
        pass

    def h(*a):
        raise TO()
    signal.signal(signal.SIGALRM, h)
    signal.alarm(limit)
    t = time.time()
    try:
        import verify
        sc = [s for s in verify.all_scenarios() if s.id == sid][0]
        return verify.prove_scenario(sc)
    except TO:
        import traceback
        tb = traceback.format_exc().splitlines()
        return {'id': sid, 'obligations': [], 'unsupported': 'TIMEOUT', 'inline': 0, 'paths': -1, 'secs': time.time() - t, 'explore_secs': time.time() - t, 'uses': []}
    except BaseException as e:
        import traceback
        return {'id': sid, 'obligations': [], 'unsupported': 'CRASH ' + repr(e) + traceback.format_exc()[-600:], 'inline': 0, 'paths': -1, 'secs': time.time() - t, 'explore_secs': time.time() - t, 'uses': []}
    finally:
        signal.alarm(0)


if __name__ == '__main__':
    limit = int(sys.argv[1])
    pats = sys.argv[2:]
    import verify
    ids = [s.id for s in verify.all_scenarios() if not pats or any(p in s.id for p in pats)]
    t0 = time.time()
    res = []
    with mp.Pool(8, maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(work, [(i, 'sl', limit) for i in ids], chunksize=1):
            res.append(r)
            bad = [o for o in r['obligations'] if not o['ok'] and not o.get('mset_ok')]
            st = 'UNSUP ' + r['unsupported'] if r['unsupported'] else ('FAIL' if bad else 'ok')
            print(f"{r['id']:58s} {st} obl={len(r['obligations'])} inl={r['inline']} paths={r['paths']} {r['explore_secs']:.1f}+{r['secs']-r['explore_secs']:.1f}s", flush=True)
            for o in bad[:5]:
                print('     ', o['name'], o['tags'], 'line', o['line'], o['why'], o['path'], o['goal'][:200].replace('\n', ' '))
    print(len(res), 'scenarios', sum(1 for r in res if not r['unsupported'] and all(o['ok'] or o.get('mset_ok') for o in r['obligations'])), 'ok', round(time.time() - t0), 's')
    json.dump(res, open('/tmp/runall.json', 'w'))
