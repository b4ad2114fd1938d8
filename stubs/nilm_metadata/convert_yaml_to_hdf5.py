import os


def _load_file(directory, filename):
    import yaml
    path = os.path.join(directory, filename)
    if not os.path.isfile(path):
        return None
    with open(path) as fh:
        return yaml.safe_load(fh)


CALLS = []      # what the two functions were asked to do (nothing is written)


def convert_yaml_to_hdf5(*args, **kwargs):
    CALLS.append(('convert_yaml_to_hdf5', args, kwargs))


def save_yaml_to_datastore(*args, **kwargs):
    CALLS.append(('save_yaml_to_datastore', args, kwargs))
