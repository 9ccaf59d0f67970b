from vc import Prop, Ob
obs = []
for nm, fn, kinds, dig in (('scan_int', 'ScanInt', 'short long', 11), ('scan_intw', 'ScanIntW', 'short long', 11), ('scan_int64', 'ScanInt64', 'short long', 19), ('scan_int64w', 'ScanInt64W', 'short long', 19),
                      ('scan_uint64', 'ScanUInt64', 'short long hex', 19), ('scan_uint64w', 'ScanUInt64W', 'short long hex', 19), ('scan_uint64hex', 'ScanUInt64Hex', 'short long hex', 17),
                      ('getint', 'GetInt', 'short long hex', 11)):
    for k in kinds.split():
        for c in ((0, 3) if k == 'long' else (0,)):
            obs.append(Ob(nm + '_' + k + ('%d' % c if k == 'long' else ''), harness=nm + '_' + k, fns=[fn], defs=['TLEN=%d' % dig, 'CASE=%d' % c], unwind=27, solver='kissat',
                          says='any text of up to 4 bytes' if k == 'short' else 'numerals of up to %d digits, any text after them' % (dig + 1)))
obs += [
    *[Ob('print_fixed_%d' % k, harness='print_fixed', fns=['XBT_ToStringChunk'], defs=['VH_FMT_LOG', 'FIXED=%d' % k], unwind=30, solver='kissat', says='every 32-bit value') for k in range(5)],
    Ob('print_int32', fns=['XBT_ToStringChunk'], defs=['VH_FMT_LOG', 'UNS=0'], unwind=30, says='every 32-bit value'),
    Ob('print_uint32', harness='print_int32', fns=['XBT_ToStringChunk'], defs=['VH_FMT_LOG', 'UNS=1'], unwind=30, says='every 32-bit value'),
    *[Ob('print_int64_%s' % 'pn'[n], harness='print_int64', fns=['XBT_ToStringChunk'], defs=['UNS=0', 'VNEG=%d' % n, 'VH_REPL_memmove', 'VH_UF_DIV'], solver='kissat', weight=9, unwind=22, says='every %s 64-bit value' % ('non-negative', 'negative')[n]) for n in (0, 1)],
    Ob('print_uint64', harness='print_int64', fns=['XBT_ToStringChunk'], defs=['UNS=1', 'VH_REPL_memmove', 'VH_UF_DIV'], solver='kissat', weight=9, unwind=30, says='every 64-bit value'),
    *[Ob('int64tostr_%s' % 'pn'[n], harness='int64tostr', fns=['Int64ToStr'], unwind=22, defs=['VNEG=%d' % n, 'VH_UF_DIV'], solver='kissat', weight=9, says='every %s 64-bit value' % ('non-negative', 'negative')[n]) for n in (0, 1)],
    Ob('lemma_digit', native=False, unwind=21, solver='cvc5int', says='(u/10)*10 + u%10 = u'),
    *[Ob('scan_fixed_q%d' % k, harness='scan_fixed', fns=['XBT_FromString', 'str2dec'], defs=['FIXED=%d' % k, 'NEG=%d' % (k & 1), 'NI0=1', 'NI1=1', 'MAXD=%d' % (11 if k < 3 else 7 if k == 3 else 4)],
         unwind=13, solver='kissat', flags=['--object-bits', '12'], weight=8, timeout=200, says='one digit before the point, any up to %d after it' % (10 if k < 3 else 6 if k == 3 else 3)) for k in range(5)],
    *[Ob('scan_fixed_%d%d_%d' % (k, n, ni), harness='scan_fixed', fns=['XBT_FromString', 'str2dec'], defs=['FIXED=%d' % k, 'NEG=%d' % n, 'NI0=%d' % ni, 'NI1=%d' % ni, 'MAXD=11'], unwind=13, solver='kissat',
         flags=['--object-bits', '12'], weight=8, timeout=600, tier='thorough', says='numerals with %d digits before the point, up to %d after it' % (ni, 11 - ni)) for k in range(5) for n in (0, 1) for ni in range(11)],
    Ob('store_int', fns=['XBT_FromString'], defs=['VH_REPL_ScanInt64', 'VH_REPL_ScanUInt64'], unwind=34, says='value of the scanner stored aligned'),
]
P = Prop('C01', 'integers and fixed point', ['macros', 'utils', 'missings', 'bin_xml_types', 'bin_xml'], 'C01.c',
         ['ScanInt', 'ScanIntW', 'ScanInt64', 'ScanInt64W', 'ScanUInt64', 'ScanUInt64W', 'ScanUInt64Hex', 'GetInt', 'Int64ToStr', 'XBT_ToStringChunk', 'XBT_FromString'], obs,
         native={'scan_fixed': 8, 'print_fixed': 4, 'getint_short': 3, 'scan_uint64_short': 3},
         assumptions=['texts of more than %d digits are outside the scan obligations (their values do not fit the types)' % 20,
                      'conversion of INT32 text uses libc atoi, printing of 32-bit numbers libc snprintf: both by contract (the directive and its argument are proved, the digits are printf\'s)',
                      'division by ten of 64-bit numbers is replaced by its contract (uninterpreted function with the facts of lemma_digit) in print_int64, print_uint64, int64tostr'],
         trusted=['libc snprintf/sprintf directives (%d, %u, %0Nu), atoi, memmove'],
         unverified=['XBT_FLOAT / XBT_DOUBLE text (floating point)', 'XBT_ToString wrappers other than through XBT_ToStringChunk', 'scan_fixed with more digits: thorough tier'])
