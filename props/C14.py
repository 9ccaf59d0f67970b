from vc import Prop, Ob
def ob(n, sz, **k):
    return Ob('sort_%d_%d' % (n, sz), harness='sort', fns=['mergesort_r2'], defs=['N=%d' % n, 'SZ=%d' % sz], unwind=2*n + 4, bounded='%d elements of %d bytes' % (n, sz), weight=n, flags=['--object-bits', '13'], **k)
obs = [ob(n, 2) for n in range(0, 7)] + [ob(3, 5), ob(5, 3)] + [ob(n, 2, tier='thorough') for n in (7, 8, 9)]
P = Prop('C14', 'sort', ['missings'], 'C14.c', ['mergesort_r2'], obs, native={'sort': 8}, level='bounded')
