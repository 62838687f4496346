import importlib.util, os
_m = {}
def other(n):
    """helper functions of another check"""
    if n not in _m:
        sp = importlib.util.spec_from_file_location('chk_' + n, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'checks', n + '.py'))
        m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m); _m[n] = m
    return _m[n]
