"""Property id -> module of checks/."""
MODULE = {
    'P01': 'p01_axis_lookup',
    'P02': 'p02_axis_brackets',
    'P03': 'p03_axis_objects',
    'P04': 'p04_dates',
    'P05': 'p05_periods',
    'P06': 'p06_interp2d',
    'P07': 'p07_interp34d',
    'P08': 'p08_windowed',
    'P09': 'p09_curves',
    'P10': 'p10_threads',
    'P11': 'p11_fill',
    'P12': 'p12_statistics',
    'P13': 'p13_streaming',
    'P14': 'p14_binning',
    'P15': 'p15_histogram2d',
    'P16': 'p16_rtree',
    'P17': 'p17_kernel',
    'P18': 'p18_geohash',
    'P19': 'p19_geohash_covers',
    'P22': 'p22_grids',
}
NOTE = {}
NOT_APPLICABLE = {}
