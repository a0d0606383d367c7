"""Events come from a JSON document behind the simtel marker (see drivers/simtel.py)."""
import gzip, json
from types import SimpleNamespace as NS
import numpy as np


class Q:
    """a quantity: only .value is used"""
    def __init__(self, value):
        self.value = value


class SimTelEventSource:
    def __init__(self, input_url=None, max_events=None, back_seekable=False, **kw):
        op = gzip.open if open(input_url, 'rb').read(2) == b'\x1f\x8b' else open
        with op(input_url, 'rb') as f:
            self.doc = json.loads(f.read()[4:].decode())
        self.max_events = max_events
        self.back_seekable = back_seekable
        n = len(self.doc['events'])
        self.n = min(n, max_events) if max_events else n
        # like ctapipe, one event container is filled again and again
        self.data = None

    def fill(self, i):
        from ctapipe.instrument import CameraGeometry
        e, doc = self.doc['events'][i], self.doc
        geom = CameraGeometry('CHEC', np.arange(len(doc['x'])), Q(np.array(doc['x'])), Q(np.array(doc['y'])))
        tel = doc['tel']
        if self.data is None:
            self.data = NS()
        d = self.data
        d.count = e['count']
        d.r0 = NS(obs_id=e['obs_id'], tels_with_data={tel}, tel={tel: NS(waveform=np.array([e['wf']], dtype=np.uint16))})
        d.r1 = NS(tel={tel: NS(waveform=np.array(e['wf'], dtype=np.float32))})
        d.trig = NS(gps_time=Q(e['time']))
        d.inst = NS(subarray=NS(tel={tel: NS(camera=geom)}))
        m = e['mc']
        d.mc = NS(energy=Q(m['energy']), alt=Q(m['alt']), az=Q(m['az']), core_x=Q(m['core_x']), core_y=Q(m['core_y']),
                  h_first_int=Q(m['h_first_int']), x_max=Q(m['x_max']), shower_primary_id=m['shower_primary_id'],
                  tel={tel: NS(photo_electron_image=np.array(e['pe'], dtype=np.int64), **e['pointing'])})
        h = {}
        for k, v in doc['mcheader'].items():
            h[k] = Q(v[0]) if isinstance(v, list) else v
        d.mcheader = NS(**h)
        return d

    def __iter__(self):
        for i in range(self.n):
            yield self.fill(i)

    def __len__(self):
        return self.n


class EventSeeker:
    def __init__(self, reader, **kw):
        self.reader = reader

    def __getitem__(self, i):
        if i < 0 or i >= len(self.reader):
            raise IndexError('event out of range')
        return self.reader.fill(i)

    def __iter__(self):
        return iter(self.reader)

    def __len__(self):
        return len(self.reader)
