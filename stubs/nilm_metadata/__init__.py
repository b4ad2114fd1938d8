"""Stand-in for the `nilm_metadata` package, which is not installed in this
sandbox.  Only the four names nilmtk imports are provided.  None of them is
the subject of any property; every one is listed as an environment stub in
DESIGN.md."""
from .convert_yaml_to_hdf5 import convert_yaml_to_hdf5, save_yaml_to_datastore


def recursively_update_dict(to_update, source):
    for key, value in source.items():
        if isinstance(value, dict):
            node = to_update.setdefault(key, {})
            recursively_update_dict(node, value)
        elif isinstance(value, list):
            to_update.setdefault(key, [])
            to_update[key].extend(value)
        else:
            to_update[key] = value


def get_appliance_types():
    base = {'parent': None}
    return {
        'fridge': {'categories': {'traditional': 'cold', 'size': 'large'},
                   'on_power_threshold': 50, 'min_on_duration': 60,
                   'min_off_duration': 12, 'n_ancestors': 1},
        'kettle': {'categories': {'traditional': 'cooking', 'size': 'small'},
                   'on_power_threshold': 2000, 'min_on_duration': 12,
                   'min_off_duration': 0, 'n_ancestors': 1},
        'light': {'categories': {'traditional': 'lighting'}, 'n_ancestors': 1},
        'lamp': {'categories': {'traditional': 'lighting'}, 'n_ancestors': 1},
        'television': {'categories': {'traditional': 'consumer electronics'},
                       'n_ancestors': 1},
        'unknown': {'n_ancestors': 1},
    }
