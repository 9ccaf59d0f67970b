from vc import Prop, Ob
obs = [
    Ob('join_laws', fns=['XBT_JoinTypes'], unwind=4, says='all triples of types'),
    Ob('join_numbers', fns=['XBT_JoinTypes'], unwind=4, says='all pairs of types'),
    Ob('detect2', fns=['XBT_Detect2'], defs=['VH_REPL_XBT_Detect'], native=False, says='XBT_Detect replaced by an arbitrary result'),
    Ob('fixed_sizes', fns=['XBT_Size2', 'XBT_Align', 'XBT_SizeFromString'], unwind=4),
    Ob('var_sizes', fns=['XBT_Size2', 'XBT_Align', 'XBT_GetBLOB_STRING_Size'], unwind=30, says='every length up to 2^29'),
    Ob('text_sizes', fns=['XBT_SizeFromString'], unwind=14),
    Ob('item_data', fns=['XML_Item::getData'], unwind=30),
    Ob('param_data', fns=['XML_Param_Description::getData'], unwind=30),
    Ob('element_data', fns=['BW_element::getData'], unwind=30),
    Ob('element_retype', fns=['BW_element::retype'], unwind=4),
    *[Ob('compare_%s' % t.lower(), harness='compare_fixed', fns=['XBT_Compare', 'XBT_Equal'], defs=['CT=XBT_' + t], unwind=26, says='every pair of values') for t in
      'INT32 UINT32 FLOAT UNIX_TIME UNIX_DATE IPv4 INT32_DECI INT32_CENTI INT32_MILI INT32_MICRO INT32_NANO INT64 UINT64 DOUBLE UNIX_TIME64_MSEC GUID IPv6 SHA1'.split()],
    Ob('compare_text', fns=['XBT_Compare'], unwind=8, bounded='texts of up to 4 bytes (strcmp itself is libc)'),
    Ob('equal_text', fns=['XBT_Equal'], defs=['VH_REPL_XBT_FromString'], unwind=10, native=False, says='text against value: conversion replaced by its contract'),
]
P = Prop('C05', 'types', ['macros', 'utils', 'missings', 'bin_xml_types', 'bin_xml', 'bin_write_plugin'], 'C05.c',
         ['XBT_JoinTypes', 'XBT_Detect2', 'XBT_Size2', 'XBT_Align', 'XBT_SizeFromString', 'XBT_GetBLOB_STRING_Size', 'XML_Item__getData', 'XML_Param_Description__getData', 'BW_element__getData', 'BW_element__retype', 'XBT_Compare', 'XBT_Equal'], obs,
         native={'join_laws': 3, 'var_sizes': 3})
