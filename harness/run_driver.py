"""Worker: replays histories through one driver module and logs the traces (one JSON per line).

Exit 3: the machinery itself is broken (driver module of /verif cannot be loaded)."""
import importlib, json, os, signal, sys, traceback


class HistoryTimeout(BaseException):
    pass


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    if here not in sys.path:
        sys.path.insert(0, here)
    name = sys.argv[1]
    mod = importlib.import_module('drivers.' + name)
    if sys.argv[2] == '--generate':
        prop, tier, seed, out = sys.argv[3:7]
        hs = mod.generate(prop, tier, int(seed))
        json.dump(hs, open(out, 'w'))
        return 0
    job = json.load(open(sys.argv[2]))
    out = open(sys.argv[3], 'w')
    limit = getattr(mod, 'TIME_LIMIT', 90)

    def on_alarm(*a):
        raise HistoryTimeout()
    signal.signal(signal.SIGALRM, on_alarm)
    from drivers.common import check_events
    boot = None
    try:
        if hasattr(mod, 'setup'):
            mod.setup(job)
    except Exception:
        boot = traceback.format_exc()[-1500:]
    for h in job['hists']:
        ev = []
        cfg = h.get('cfg', {})
        if boot is not None:
            ev.append(dict(op='abort', what='setup', detail=boot))
        else:
            signal.alarm(limit)
            try:
                r = mod.replay(h, ev)
                if r is not None:
                    cfg = r
                signal.alarm(0)
            except HistoryTimeout:
                ev.append(dict(op='abort', what='hang', detail=traceback.format_exc()[-1500:]))
            except BaseException as e:
                signal.alarm(0)
                ev.append(dict(op='abort', what='unexpected ' + type(e).__name__,
                               detail=traceback.format_exc()[-1500:]))
            signal.alarm(0)
        check_events(ev)
        out.write(json.dumps(dict(id=h['id'], cfg=cfg, ev=ev, hist=h)) + '\n')
        out.flush()
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
