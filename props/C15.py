from vc import Prop, Ob
R = 'VH_REPL_blk_SHA1_Block'
obs = [
    Ob('lemma_functions', fns=[], unwind=2, says='the forms of Ch and Maj used by the code and the specification are those of FIPS 180-4'),
    Ob('init', fns=['blk_SHA1_Init'], unwind=17),
    Ob('block', fns=['blk_SHA1_Block'], unwind=81, solver='cvc5', flags=['--max-field-sensitivity-array-size','128'], says='every chaining value and block'),
    Ob('update', fns=['blk_SHA1_Update'], defs=[R, 'VH_LC_blk_SHA1_Update'], unwind=66, loops=True, native=False, says='messages of every length up to 2^48 bytes per call, loop by invariant; compression by contract'),
    Ob('final', fns=['blk_SHA1_Final', 'blk_SHA1_Update'], defs=[R], unwind=66, native=False, says='every message length; compression by contract'),
    Ob('whole', fns=['SHA1'], defs=['VH_REPL_blk_SHA1_Init', 'VH_REPL_blk_SHA1_Update', 'VH_REPL_blk_SHA1_Final'], unwind=17, native=False),
    Ob('file', fns=['file_getsha1'], defs=['VH_FILE', 'VH_REPL_blk_SHA1_Init', 'VH_REPL_blk_SHA1_Update', 'VH_REPL_blk_SHA1_Final'], unwind=6, native=False, bounded='files of up to 9000 bytes (three reads); open/read/close by contract'),
    Ob('digest', harness='digest', tier='native', unwind=2),
]
P = Prop('C15', 'SHA-1', ['missings'], 'C15.c', ['blk_SHA1_Block', 'blk_SHA1_Init', 'blk_SHA1_Update', 'blk_SHA1_Final', 'SHA1', 'file_getsha1'], obs,
         contracts={'blk_SHA1_Update': {'loops': {1: [
             '__CPROVER_assigns($2, $3, vh_gpos, vh_gseen)',
             '__CPROVER_loop_invariant(__CPROVER_same_object($2, vh_gd) && $3 <= vh_glen && (const char*)$2 + $3 == vh_gd && vh_gpos % 64 == 0 && vh_gpos + $3 == vh_gtotal && (vh_gk >= vh_gpos || vh_gseen == vh_gv))',
             '__CPROVER_decreases($3)']}}}, native={'digest': 6})
