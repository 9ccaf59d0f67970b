from vc import Prop, Ob
B = ['BW_element::' + x for x in 'join add remove replace init NextChild PrevChild tagGet attrGet findChildByTag findAttr'.split()]
obs = [
    Ob('init', fns=['BW_element::init'], unwind=8, defs=['N=6']),
    Ob('join', fns=['BW_element::join', 'BW_element::BWE'], unwind=8, defs=['N=6']),
    Ob('join_order', fns=['BW_element::join'], unwind=7, defs=['N=5'], bounded='circles of up to 5 elements in total (the link clauses of `join` hold for every length)'),
    Ob('add', fns=['BW_element::add'], unwind=8, defs=['N=6']),
    Ob('remove', fns=['BW_element::remove'], unwind=8, defs=['N=6']),
    Ob('replace', fns=['BW_element::replace'], unwind=9),
    Ob('replace_refused', fns=['BW_element::replace'], unwind=8, defs=['N=6']),
    Ob('walk_step', fns=['BW_element::NextChild', 'BW_element::PrevChild'], unwind=8, defs=['N=6']),
    *[Ob('find_%s_%d%s' % (f, l, 'r' if r else ''), harness='find', fns=['BW_element::' + f], unwind=8, defs=['N=6', 'ATT=%d' % (i & 1), 'SECOND=%d' % (i >> 1), 'LEN=%d' % l, 'REV=%d' % r], bounded='lists of up to 5 elements')
      for i, f in enumerate(['tagGet', 'attrGet', 'findChildByTag', 'findAttr']) for l, r in [(0, 0), (1, 0), (2, 0), (5, 0), (3, 1)]],
    Ob('nothing', fns=['BW_element::add', 'BW_element::remove', 'BW_element::replace'], unwind=8, defs=['N=6']),
]
P = Prop('C10', 'lists', ['macros', 'utils', 'missings', 'bin_xml_types', 'bin_xml', 'bin_write_plugin'], 'C10.c',
         [x.replace('::', '__') for x in B], obs)
