from vc import Prop, Ob
DMIN, DMAX = -134306607, 134306972
N = 8
def slices():
    w = (DMAX - DMIN) // N + 1
    return [(DMIN + i * w, min(DMAX, DMIN + (i + 1) * w - 1)) for i in range(N)]
obs = [Ob('print_date_%d' % i, harness='print_date', fns=['UnixDate2Str'], defs=['VH_FMT_LOG', 'LO=%d' % a, 'HI=%d' % b], unwind=14, solver='kissat', timeout=600, weight=9,
          says='for every day number %d..%d the printed date is the calendar date of that day' % (a, b)) for i, (a, b) in enumerate(slices())]
obs += [
    Ob('lemma_cycle', weight=14, unwind=14, solver='cvc5', says='dates repeat every 400 years = 146097 days', native=False),
    Ob('lemma_months', unwind=14, says='month offsets are sums of month lengths', native=False),
    Ob('lemma_year', tier='thorough', weight=15, unwind=14, solver='cvc5', says='year y+1 starts 365 or 366 days after year y', native=False),
    Ob('lemma_injective', unwind=14, solver='kissat', says='day number determines the date within a year', native=False),
    Ob('scan_int', fns=['ScanInt'], unwind=14, solver='kissat', says='numerals of 1..9 digits'),
    Ob('scan_int_reject', fns=['ScanInt'], unwind=14, says='what is not a numeral is rejected and nothing consumed'),
    Ob('scan_date', weight=20, fns=['ScanUnixDate'], defs=['VH_REPL_ScanInt'], unwind=14, solver='kissat', says='all dates Y-M-D, |Y| < 10^6'),
    Ob('scan_time', fns=['ScanUnixTime'], defs=['VH_REPL_ScanInt'], unwind=14, solver='kissat'),
    Ob('scan_time_msec', fns=['ScanUnixTime64msec'], defs=['VH_REPL_ScanInt', 'VH_REPL_ScanUnixTime'], unwind=24, solver='kissat'),
    Ob('print_time', fns=['XBT_ToStringChunk'], defs=['VH_FMT_LOG'], unwind=14, solver='cvc5int', says='every 32-bit second is printed as its own date and time (gmtime_r by contract)'),
    Ob('print_time_msec', fns=['XBT_ToStringChunk'], defs=['VH_FMT_LOG'], unwind=14, solver='cvc5int'),
    Ob('print_time64', fns=['UnixTime642Str'], defs=['VH_FMT_LOG', 'VH_REPL_UnixDate2Str'], unwind=14, solver='cvc5int'),
]
P = Prop('C02', 'calendar', ['macros', 'utils', 'missings', 'bin_xml_types', 'bin_xml'], 'C02.c',
         ['UnixDate2Str', 'ScanUnixDate', 'ScanUnixTime', 'ScanUnixTime64msec', 'UnixTime642Str', 'XBT_ToStringChunk', 'XBT_FromString'], obs,
         native={'dispatch_native': 3, 'print_date': 5})
