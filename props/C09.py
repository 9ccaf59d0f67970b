from vc import Prop, Ob
obs = [
    Ob('allocate', fns=['BW_pool::allocate'], unwind=3, unwindset=['memcmp.0:120'], says='every pool up to 2 GB, every fill level, every request'),
    Ob('allocate8', fns=['BW_pool::allocate8'], unwind=3, unwindset=['memcmp.0:120'], says='every pool up to 2 GB, every fill level, every request'),
    Ob('two', fns=['BW_pool::allocate', 'BW_pool::allocate8'], unwind=3),
    *[Ob(h + '_small', harness=h, fns=[], unwind=3, defs=['MAXPOOL=0x40000'], unwindset=['memcmp.0:120'], says='pools up to 256 kB: counterexamples can be replayed') for h in ['allocate', 'allocate8', 'two', 'make_space']],
    Ob('make_space', fns=['BW_plugin::makeSpace'], unwind=3, unwindset=['memcmp.0:120']),
    *[Ob('new_element_%s' % t.lower(), harness='new_element', fns=['BW_pool::new_element'], unwind=34, defs=['TYPE=XBT_' + t])
      for t in 'NULL STRING BLOB HEX BLOB_STRING INT32 INT64 IPv6 GUID SHA1'.split()],
    Ob('plugin_registry', fns=['BW_plugins::registerPlugin', 'BW_plugins::unregisterPlugin', 'BW_plugins::getPlugin'], unwind=9, bounded='up to 5 writers'),
    Ob('plugin_limit', fns=['BW_plugins::registerPlugin'], unwind=9),
]
P = Prop('C09', 'pool', ['macros', 'utils', 'missings', 'bin_xml_types', 'bin_xml', 'bin_write_plugin'], 'C09.c',
         ['BW_pool__allocate', 'BW_pool__allocate8', 'BW_pool__new_element', 'BW_plugin__makeSpace', 'BW_plugins__registerPlugin', 'BW_plugins__unregisterPlugin', 'BW_plugins__getPlugin'], obs)
