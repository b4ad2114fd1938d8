"""Real ElecMeters with arbitrary statistics (no store)."""
import contextlib
import copy

from .stream import *


@contextlib.contextmanager
def registry(devices=None, types=None):
    """Fresh global registries, restored afterwards."""
    import nilmtk
    from nilmtk.elecmeter import ElecMeter
    from nilmtk.appliance import Appliance
    saved = list(nilmtk.global_meter_group.meters), dict(ElecMeter.meter_devices), dict(Appliance.appliance_types)
    nilmtk.global_meter_group.meters[:] = []
    ElecMeter.meter_devices.clear()
    ElecMeter.meter_devices.update(devices or {'dev': {'sample_period': 60, 'max_sample_period': 120, 'measurements': [
        {'physical_quantity': 'power', 'type': 'active', 'lower_limit': 0, 'upper_limit': 5000}]}})
    Appliance.appliance_types = copy.deepcopy(types or {'kettle': {}, 'fridge': {}, 'light': {}})
    try:
        yield
    finally:
        nilmtk.global_meter_group.meters[:] = saved[0]
        ElecMeter.meter_devices.clear()
        ElecMeter.meter_devices.update(saved[1])
        Appliance.appliance_types = saved[2]


def stat_meter(i, building=1, dataset='D', site=False, of=None, device='dev', **md):
    from nilmtk.elecmeter import ElecMeter, ElecMeterID

    class StatMeter(ElecMeter):
        energy = None            # {ac_type: reading}
        log = ()

        def total_energy(self, **kw):
            self.log.append(('total_energy', kw))
            e = self.energy(kw) if callable(self.energy) else self.energy
            sym = any(is_sym_(x) for x in e.values())
            return pd.Series(list(e.values()), index=list(e), dtype=object if sym else float)

        def average_energy_per_period(self, **kw):
            self.log.append(('average', kw))
            e = self.energy(kw) if callable(self.energy) else self.energy
            return pd.Series([x * 3 for x in e.values()], index=list(e), dtype=object if any(is_sym_(x) for x in e.values()) else float)

        def good_sections(self, **kw):
            self.log.append(('good', kw))
            return 'good%s' % (self.identifier.instance,) if self.good is None else self.good

        good = None
    StatMeter.__name__ = 'ElecMeter'
    metadata = dict(md, device_model=device)
    if site:
        metadata['site_meter'] = True
    if of is not None:
        metadata['submeter_of'] = of
    m = StatMeter(None, metadata, ElecMeterID(i, building, dataset))
    m.log = []
    return m
