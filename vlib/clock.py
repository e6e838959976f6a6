"""Time zones and instants for checks of times."""
import os
import time

ZONES = ['UTC0', 'EST5EDT,M3.2.0,M11.1.0', 'CET-1CEST,M3.5.0,M10.5.0/3',
         'NZST-12NZDT,M9.5.0,M4.1.0/3', 'IST-5:30', 'XXX11']
# Some instants at which these zones change their clocks.
CHANGES = [1414288800, 1414893600, 1394348400, 1396137600, 1427590800,
           1445734800, 1411826400, 1428156000, 1396706400]


def timestamp(d):
    if d.bool(0.4):
        return d.choice(CHANGES) + d.int(-7300, 7300)
    return d.edge_int(0, 2 ** 32 - 1, (2 ** 31, 1400000000, 1 << 16))


class Zone(object):

    def __init__(self, name):
        self.name = name

    def __enter__(self):
        self.old = os.environ.get('TZ')
        os.environ['TZ'] = self.name
        time.tzset()

    def __exit__(self, *a):
        if self.old is None:
            del os.environ['TZ']
        else:
            os.environ['TZ'] = self.old
        time.tzset()
