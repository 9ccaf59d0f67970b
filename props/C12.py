from vc import Prop, Ob
T = 'BW_symbol_table_16B::'
V = {'e': '0', 'a': '2,0', 'b': '0,0', 'c': '1,4,0', 'd': '5,2,1,0', 'f': '3,3,3,0'}
def obs_for(h, fns, vs, tags=(1, 0), after=(0, 8), idx=(0,), **k):
    r = []
    for v in vs:
        for t in tags:
            for a in after:
                for i in idx:
                    d = ['LENS=' + V[v], 'TAGS=%d' % t, 'AFTER=%d' % a, 'IDX=%d' % i]
                    r.append(Ob('%s_%s%s%s%s' % (h, v, '' if t else 'p', 'x' if a else '', 'i' if i else ''), harness=h, fns=fns, defs=d, unwind=14, unwindset=['memcpy.0:260', 'memset.0:260', 'memcmp.0:260'],
                                bounded='%d names of the lengths %s' % (len(V[v].split(',')) - 1, V[v][:-2] or '-'), **k))
    return r
obs = (obs_for('get_by_name', [T + 'getByName'], 'eacd', tags=(1,), idx=(0, 1), after=(8,)) + obs_for('get_by_name', [T + 'getByName'], 'f', after=(0,))
     + obs_for('get_by_id', [T + 'getName', T + 'getType'], 'eabd', tags=(1,), idx=(0, 1), after=(8,))
     + obs_for('sizes', [T + 'getNamesSize', T + 'check'], 'eacd', tags=(1,), idx=(0, 1))
     + obs_for('make_table', ['BW_pool::makeTable'], 'ebd', tags=(1,))
     + obs_for('by_index', ['BW_pool::getTagName', 'BW_pool::getTagType', 'BW_pool::getAttrName', 'BW_pool::getAttrType'], 'ad', after=(0,))
     + obs_for('open', [T + 'Open', 'BW_pool::allocate'], 'ecd', tags=(1,), idx=(0, 1))
     + obs_for('register_id', ['BW_plugin::registerTag', 'BW_plugin::registerAttr'], 'ec') + obs_for('register_id', ['BW_plugin::registerTag', 'BW_plugin::registerAttr'], 'd', after=(0,), idx=(1,))
     + obs_for('register_name', ['BW_plugin::registerTag', 'BW_plugin::registerParam'], 'ec') + obs_for('register_name', ['BW_plugin::registerTag', 'BW_plugin::registerParam'], 'd', after=(0,))
     + obs_for('check_only', ['BW_plugin::registerTag', 'BW_plugin::registerAttr'], 'cd', after=(0,))
     + obs_for('alter', ['BW_plugin::alterTag', 'BW_plugin::alterAttr'], 'c', after=(0,)))
QUICK_RN = ('register_name_c', 'register_name_cpx')
for o in obs:
    if o.name.startswith('register_name_') and o.name[14] != 'e' and o.name not in QUICK_RN: o.tier = 'thorough'
    if o.name in ('sizes_dxi', 'sizes_di', 'sizes_cxi', 'register_name_epx', 'register_name_ex', 'get_by_name_exi', 'get_by_id_exi'): o.tier = 'thorough'
P = Prop('C12', 'registry of names', ['macros', 'utils', 'missings', 'bin_xml_types', 'bin_xml', 'bin_write_plugin'], 'C12.c',
    ['BW_symbol_table_16B__' + x for x in 'getByName getName getType getNamesSize check Open'.split()] + ['BW_pool__makeTable', 'BW_pool__getTagName', 'BW_pool__getTagType', 'BW_pool__getAttrName', 'BW_pool__getAttrType',
     'BW_plugin__registerTag__int16_t_charp_XML_Binary_Type', 'BW_plugin__registerTag__charp_XML_Binary_Type', 'BW_plugin__registerAttr', 'BW_plugin__registerParam', 'BW_plugin__alterTag', 'BW_plugin__alterAttr', 'XBT_JoinTypes', 'XBT_ConvertableType'],
    obs, native={'history': 8, 'register_name': 3, 'get_by_name': 2, 'check_only': 1}, level='bounded')
