# property -> scenarios explored for it: (scenario, share of the run budget)
PLAN = {
    'P01': [('static', 1.0), ('versions', 0.4)],
    'P02': [('static', 1.0), ('backend', 1.0), ('seg', 1.0), ('opts', 0.4)],
    'P03': [('seg', 1.0)],
    'P04': [('backend', 1.0), ('flow', 0.15)],
    'P05': [('backend', 1.0), ('flow', 0.15)],
    'P06': [('backend', 1.0), ('opts', 1.0), ('lua', 0.3)],
    'P07': [('backend', 1.0)],
    'P08': [('timeouts', 1.0)],
    'P09': [('backend', 1.0), ('static', 0.5), ('versions', 0.2), ('cache', 0.3), ('upgrade', 0.3), ('dirlist', 0.2), ('tls', 0.3), ('memcached', 0.15), ('deflate', 0.15), ('flow', 0.15), ('timeouts', 0.15), ('limits', 0.15), ('throttle', 0.1), ('modlimit', 0.1), ('auth', 0.15), ('progress', 0.15), ('status', 0.1), ('accesslog', 0.1), ('supervised', 0.15), ('opts', 0.15), ('seg', 0.15), ('shutdown', 0.15), ('balance', 0.15), ('lua', 0.15)],
    'P10': [('backend', 1.0), ('static', 0.5), ('seg', 0.5), ('timeouts', 0.5), ('shutdown', 0.5), ('limits', 0.5), ('deflate', 0.4), ('cache', 0.4), ('memcached', 0.4), ('balance', 0.4), ('upgrade', 0.4), ('dirlist', 0.3), ('auth', 0.3), ('status', 0.3), ('progress', 0.3), ('tls', 0.4), ('supervised', 0.3), ('throttle', 0.3), ('modlimit', 0.2), ('accesslog', 0.2), ('versions', 0.2), ('flow', 0.3), ('opts', 0.3), ('lua', 0.3)],
    'P11': [('shutdown', 1.0), ('supervised', 0.4)],
    'P12': [('limits', 1.0)],
    'P13': [('throttle', 1.0)],
    'P14': [('modlimit', 1.0)],
    'P15': [('accesslog', 1.0)],
    'P16': [('versions', 1.0)],
    'P17': [('deflate', 1.0)],
    'P18': [('cache', 1.0)],
    'P19': [('memcached', 1.0)],
    'P20': [('balance', 1.0)],
    'P21': [('tls', 1.0)],
    'P22': [('angel', 1.0)],
    'P23': [('upgrade', 1.0)],
    'P24': [('dirlist', 1.0)],
    'P25': [('auth', 1.0)],
    'P26': [('status', 1.0)],
    'P27': [('progress', 1.0)],
    'P28': [('supervised', 1.0)],
    'P29': [('flow', 1.0)],
    'P30': [('lua', 1.0)],
}
# seconds of seeded search (8 processes) per tier
BUDGET = {'quick': 30, 'thorough': 900}
NOFAULT_SHARE = 0.2
