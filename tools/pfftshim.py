"""stand-in for a newer pfft-python: LocalBuffer(partition, base=...)"""
import pfft, numpy
_LB = pfft.LocalBuffer
_Plan = pfft.Plan
class LocalBuffer(object):
    def __init__(self, partition, base=None):
        self._proto = _LB(partition)
        self.raw = self._proto if base is None else base.raw
        self._keep = base
        self.partition = partition
    def __contains__(self, other):
        return other.raw is self.raw
    def _view(self, name):
        p = getattr(self._proto, name)()
        if self.raw is self._proto:
            return p
        m = self.raw.view_input()
        class A(object): pass
        a = A()
        itf = dict(p.__array_interface__)
        itf['data'] = (m.__array_interface__['data'][0], False)
        a.__array_interface__ = itf
        a.keep = (self.raw, m)
        return numpy.asarray(a)
    def view_input(self):
        return self._view('view_input')
    def view_output(self):
        return self._view('view_output')
class Plan(object):
    def __init__(self, partition, direction, i, o, *args):
        self._plan = _Plan(partition, direction, i.raw, o.raw, *args)
    def execute(self, i, o):
        return self._plan.execute(i.raw, o.raw)
pfft.LocalBuffer = LocalBuffer
pfft.Plan = Plan
