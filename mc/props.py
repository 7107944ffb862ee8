"""Per property: harness sources and the assumptions its evidence states."""
COMMON = ['x86-64 Linux, 32-bit wchar_t, little endian', 'library built from /repo at -O1 with AddressSanitizer and a redzoned, garbage-filled heap behind malloc', 'exhaustive only within the bounds named per suite']
def P(src, *more, **kw): return dict(src=src if isinstance(src, list) else [src], assumptions=COMMON + list(more), **kw)
PROPS = {
    'P03': P(['p03_array_index.cpp', 'clock.cpp']),
    'P04': P(['p04_array_boxed.cpp', 'clock.cpp']),
    'P06': P(['p06_buffer.cpp', 'clock.cpp']),
    'P07': P(['p07_bitconverter.cpp', 'clock.cpp']),
    'P05': P(['p05_array_ranges.cpp', 'clock.cpp']),
    'P15': P(['p15_intparse.cpp', 'clock.cpp']),
    'P08': P(['p08_string_content.cpp', 'clock.cpp']),
    'P09': P(['p09_search.cpp', 'clock.cpp']),
    'P10': P(['p10_compare.cpp', 'clock.cpp']),
    'P11': P(['p11_transform.cpp', 'clock.cpp']),
    'P12': P(['p12_concat.cpp', 'clock.cpp']),
    'P13': P(['p13_builder.cpp', 'clock.cpp']),
    'P14': P(['p14_capacity.cpp', 'clock.cpp']),
    'P16': P(['p16_format.cpp', 'clock.cpp']),
    'P17': P(['p17_convert.cpp', 'clock.cpp']),
    'P18': P(['p18_order.cpp', 'clock.cpp']),
    'P19': P(['p19_chars.cpp', 'clock.cpp']),
    'P20': P(['p20_float.cpp', 'clock.cpp']),
    'P21': P(['p21_intmath.cpp', 'clock.cpp']),
    'P22': P(['p22_floatmath.cpp', 'clock.cpp']),
    'P23': P(['p23_calendar.cpp', 'clock.cpp']),
    'P24': P(['p24_datearith.cpp', 'clock.cpp']),
    'P25': P(['p25_datetext.cpp', 'clock.cpp']),
    'P26': P(['p26_clock.cpp', 'clock.cpp']),
    'P27': P(['p27_spanarith.cpp', 'clock.cpp']),
    'P28': P(['p28_spantext.cpp', 'clock.cpp']),
    'P01': P(['p01_pool.cpp', 'clock.cpp']),
    'P02': P(['p02_runs.cpp', 'clock.cpp']),
    'P29': P(['p29_exceptions.cpp', 'clock.cpp']),
    'P30': P(['p30_reasons.cpp', 'clock.cpp']),
    'P31': P(['p31_history.cpp', 'clock.cpp']),
}
