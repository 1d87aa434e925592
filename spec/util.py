"""Reference: variable lookup and the stubs of moved functions."""
import warnings


def _caps(s, sep):
    return sep.join(w.capitalize() for w in s.split(sep))


def _find_var(ds, standard_name=None, long_name=None, possible_names=None, description='variable'):
    if standard_name:
        forms = {standard_name, standard_name.lower(), standard_name.upper(), standard_name.capitalize(), _caps(standard_name, '_')}
        for v in ds.data_vars:
            if v in forms or ds[v].attrs.get('standard_name', '') in forms:
                return v
    if long_name:
        forms = {long_name, long_name.lower(), long_name.upper(), long_name.capitalize(), _caps(long_name, ' '), _caps(long_name, '_'),
                 long_name.replace(' ', '_'), long_name.replace('_', ' ')}
        for v in ds.data_vars:
            if v in forms or ds[v].attrs.get('long_name', '') in forms:
                return v
    if possible_names:
        forms = []
        for n in possible_names:
            for f in (n, n.lower(), n.upper(), n.capitalize(), _caps(n, '_')):
                forms.append(f)
        for f in forms:
            if f in ds:
                return f
    raise KeyError("not found")


def _find_optional_var(ds, standard_name=None, long_name=None, possible_names=None, description=None):
    try:
        return _find_var(ds, standard_name, long_name, possible_names, description)
    except KeyError:
        return None


def stub(*args, **kwargs):
    warnings.warn("moved")
    return None
