from vc import Prop, Ob
S = ['jsmn_init', 'jsmn_parse', 'jsmn_parse_string', 'jsmn_parse_primitive', 'jsmn_alloc_token', 'jsmn_fill_token']
def t(n): return 'texts of up to %d characters' % n
R = ['VH_REPL_jsmn_parse_string', 'VH_REPL_jsmn_parse_primitive']
def inv(K):
    """what holds between two characters, written out for K tokens (the C text of the same is vh_inv in the harness)"""
    n, sup, pos, s, g = '(int)$1->toknext', '$1->toksuper', '(int)$1->pos', '$2', '(int)vh_gk'
    f = lambda i, x: '$4[%d].%s' % (i, x)
    cont = lambda i: '(%s == 1 || %s == 2)' % (f(i, 'type'), f(i, 'type'))
    st = lambda i: '(%s == 3)' % f(i, 'type')
    beg = lambda i: '(%s - %s)' % (f(i, 'start'), st(i))
    fin = lambda i: '(%s + %s)' % (f(i, 'end'), st(i))
    opn = lambda i: '(%s == -1)' % f(i, 'end')
    def leads(i, j):
        return '(' + ' || '.join(['%s == %d' % (f(i, 'parent'), j)] + ['(%s == %d && %s)' % (f(i, 'parent'), k, leads(k, j)) for k in range(j + 1, i)]) + ')'
    def sleads(j):
        return '(' + ' || '.join(['%s == %d' % (sup, j)] + ['(%s == %d && %s)' % (sup, k, leads(k, j)) for k in range(j + 1, K)]) + ')'
    c = ['$1->pos <= $3', '$1->toknext <= $5', '%s >= -1' % sup, '%s < %s' % (sup, n), 'count == %s' % n]
    cov = []
    for i in range(K):
        a = ['%s >= -1 && %s < %d' % (f(i, 'parent'), f(i, 'parent'), i), '%s >= 1 && %s <= 4' % (f(i, 'type'), f(i, 'type')),
             '%s >= 0 && %s >= 0 && %s < %s' % (beg(i), f(i, 'start'), beg(i), pos),
             '(%s ? %s : (%s >= %s && %s > %s && %s <= %s))' % (opn(i), cont(i), f(i, 'end'), f(i, 'start'), fin(i), beg(i), fin(i), pos),
             '(!%s || %s[%s] == (%s == 1 ? 123 : 91))' % (cont(i), s, f(i, 'start'), f(i, 'type')),
             '(!%s || %s || %s[%s - 1] == (%s == 1 ? 125 : 93))' % (cont(i), opn(i), s, f(i, 'end'), f(i, 'type')),
             '(!%s || (%s[%s - 1] == 34 && %s[%s] == 34))' % (st(i), s, f(i, 'start'), s, f(i, 'end')),
             '(!%s || %s)' % (opn(i), sleads(i)),
             '%s == %s' % (f(i, 'size'), ' + '.join(['0'] + ['(%d < %s && %s == %d)' % (j, n, f(j, 'parent'), i) for j in range(i + 1, K)]))]
        for j in range(i):
            a += ['%s < %s' % (beg(j), beg(i)),
                  '((!%s && %s <= %s) || (%s && (%s || (!%s && %s < %s))))' % (opn(j), fin(j), beg(i), cont(j), opn(j), opn(i), fin(i), fin(j)),
                  '(!%s || (!%s && %s <= %s) || %s)' % (cont(j), opn(j), f(j, 'end'), f(i, 'start'), leads(i, j))]
        c.append('(%d >= %s || (%s))' % (i, n, ' && '.join(a)))
        cov.append('(%d < %s && (%s ? %s == %s : (%s ? (%s == %s || %s == %s - 1) : (%s >= %s && %s < %s))))' % (i, n, opn(i), g, f(i, 'start'), cont(i), g, f(i, 'start'), g, f(i, 'end'), g, beg(i), g, fin(i)))
    c.append('(vh_gk >= $1->pos || %s || %s)' % (' || '.join('%s[vh_gk] == %d' % (s, x) for x in b' \t\r\n:,'), ' || '.join(cov)))
    return '__CPROVER_loop_invariant(%s)' % ' && '.join(c)


obs = [
    Ob('string', fns=['jsmn_parse_string', 'jsmn_alloc_token', 'jsmn_fill_token'], unwind=10, defs=['N=8', 'K=2'], bounded=t(8)),
    Ob('primitive', fns=['jsmn_parse_primitive', 'jsmn_alloc_token', 'jsmn_fill_token'], unwind=8, defs=['N=6', 'K=2'], bounded=t(6)),
    Ob('string_long', fns=['jsmn_parse_string'], unwind=6, defs=['K=2', 'N=4', 'VH_LC_jsmn_parse_string'], pre_unwind={'jsmn_parse_string': 6}, loops=True, native=False, says='texts of any length up to 2^31-2'),
    Ob('primitive_long', fns=['jsmn_parse_primitive'], unwind=6, defs=['K=2', 'N=4', 'VH_LC_jsmn_parse_primitive'], loops=True, native=False, says='texts of any length up to 2^31-2'),
    Ob('parse_long', solver='kissat', timeout=600, weight=9, fns=['jsmn_parse', 'jsmn_alloc_token', 'jsmn_init'], unwind=6, defs=['K=2', 'N=4', 'VH_LC_jsmn_parse', *R], pre_unwind={'jsmn_parse': 6}, loops=True, native=False, bounded='texts of any length, up to 2 tokens'),
    *[Ob('parse_%d' % n, harness='parse', fns=['jsmn_parse'], unwind=n + 3, defs=['N=%d' % n, 'K=%d' % max(n,1), 'TAB', *R], bounded=t(n), tier='thorough' if n > 2 else 'quick') for n in (1, 2, 3, 4)],
    *[Ob('count_%d' % n, harness='count', fns=['jsmn_parse'], unwind=n + 3, defs=['N=%d' % n, 'K=1', 'TAB', *R], bounded=t(n)) for n in (1, 4, 6)],
    *[Ob('twice_%d' % n, harness='twice', fns=['jsmn_parse'], unwind=n + 3, defs=['N=%d' % n, 'TAB', *R], bounded=t(n), tier='thorough' if n > 2 else 'quick') for n in (1, 2, 3)],
    Ob('parse_syntax', tier='native', unwind=2),
]
I = ['__CPROVER_assigns($1->pos, $1->toknext, $1->toksuper, __CPROVER_object_whole($4), $LOCALS)']
P = Prop('C13', 'JSON tokenizer', ['jsmn/jsmn.c'], 'C13.c', S, obs, native={'string': 4, 'primitive': 3, 'parse': 2, 'count': 3, 'parse_syntax': 6, 'twice_syntax': 4}, level='bounded',
    contracts={
      'jsmn_parse_string': {'loops': {1: ['__CPROVER_assigns($1->pos, $LOCALS)', '__CPROVER_loop_invariant($1->pos > vh_gpos && $1->pos <= $3)', '__CPROVER_decreases($3 - $1->pos)']}},
      'jsmn_parse_primitive': {'loops': {1: ['__CPROVER_assigns($1->pos, $LOCALS)', '__CPROVER_loop_invariant($1->pos >= vh_gpos && $1->pos <= $3 && (vh_gk < vh_gpos || vh_gk >= $1->pos || ($2[vh_gk] >= 32 && $2[vh_gk] < 127 && ' + ' && '.join('$2[vh_gk] != %d' % c for c in b'\t\r\n :,]}') + ')))', '__CPROVER_decreases($3 - $1->pos)']}},
      'jsmn_parse': {'loops': {1: ['__CPROVER_assigns($1->pos, $1->toknext, $1->toksuper, __CPROVER_object_upto($4, sizeof(*$4)*$5), $LOCALS)', inv(2), '__CPROVER_decreases($3 - $1->pos)']}},
    })
