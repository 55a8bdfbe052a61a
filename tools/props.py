"""Which specification modules decide which property, and how deep.
quick/thorough = (quint processes, behaviours per process, steps per behaviour)"""
def S(file, quick, thorough, inv='inv', **k):
    d = dict(file=file, quick=quick, thorough=thorough, inv=inv)
    d.update(k)
    return d

def T(module, invs, quick, thorough, temporal=[]):
    """a TLA+ module checked exhaustively by TLC within the bounds given by each constant assignment; its behaviours are replayed too"""
    return dict(module=module, invs=invs, quick=quick, thorough=quick + thorough, temporal=temporal)

def tail(depth, header, most, torn='FALSE'):
    return dict(Depth=depth, Header=header, Max=most, Torn=torn)

def small(n, lim, sym):
    return dict(N=n, Lim=lim, Sym=sym)

TLC = {
 'V01': [T('CsvTail', ['CaughtUp', 'Bounded'], [tail(5, 'FALSE', 99), tail(5, 'TRUE', 99), tail(4, 'FALSE', 1), tail(4, 'TRUE', 1), tail(4, 'FALSE', 99, 'TRUE'), tail(4, 'TRUE', 99, 'TRUE')],
          [tail(6, 'FALSE', 99), tail(6, 'TRUE', 99), tail(6, 'FALSE', 1), tail(6, 'TRUE', 0), tail(5, 'FALSE', 1, 'TRUE'), tail(5, 'TRUE', 99, 'TRUE')])],
 'V04': [T('LiveTail', ['OneFile', 'Alive'], [dict(Writes=5, Gens=2, ByPath='FALSE', Dies='FALSE')], [dict(Writes=6, Gens=3, ByPath='FALSE', Dies='FALSE')], temporal=['Settles'])],
 'T04': [T('Calendar', ['Valid', 'Cycle'], [dict(Days=146100, Dir=1), dict(Days=146100, Dir=2)], [dict(Days=800000, Dir=1), dict(Days=900000, Dir=2)])],
 'T05': [T('Schedule', ['Ahead'], [dict(Depth=3, Family=0), dict(Depth=2, Family=1)], [dict(Depth=4, Family=0), dict(Depth=3, Family=1)])],
 'T06': [T('Timers', ['Never'], [dict(Depth=4)], [dict(Depth=5)])],
 'M02': [T('SmallMatrix', ['Adjugate'], [small(2, 3, 'FALSE'), small(3, 1, 'FALSE')], [small(4, 1, 'TRUE'), small(3, 2, 'TRUE'), small(2, 8, 'FALSE')])],
}

PROPS = {
 'V04': dict(features='viz', model='v04', specs=[S('v04.qnt',(6,30,40),(8,250,60))]),
 'V02': dict(features='viz', model='v02', specs=[S('v02.qnt',(8,40,40),(8,300,80))]),
 'N01': dict(features='scal,cfull', variants=[('scal', ''), ('scal,fx', ''), ('scal,cfull,fx', '')], model='n01', specs=[S('n01.qnt', (8, 100, 60), (8, 1500, 100))]),
 'B02': dict(features='bench', model='b02', specs=[S('b02.qnt',(8,100,100),(8,1200,160))]),
 'B01': dict(features='test,cfull', model='b01', specs=[S('b01.qnt',(8,300,60),(8,4000,100))]),
 'W02': dict(features='catalogs,cfull', model='w02', specs=[S('w02.qnt',(8,100,60),(8,1500,100))]),
 'W01': dict(features='catalogs,cfull', model='w01', specs=[S('w01.qnt',(8,30,30),(8,220,60))]),
 'L01': dict(features='ml,cfull', variants=[('ml', '')], model='l01', specs=[S('l01.qnt',(4,100,60),(8,1500,100)), S('l02.qnt',(4,60,40),(8,900,60))]),
 'C01': dict(features='graphics,cfull', variants=[('graphics', '')], model='c01', specs=[S('c01.qnt',(8,60,60),(8,900,100))]),
 'P02': dict(features='fluids', model='p02', specs=[S('p02.qnt',(8,300,60),(8,4000,100))]),
 'P01': dict(features='shapes,cfull', variants=[('shapes', '')], model='p01', specs=[S('p01.qnt',(8,200,60),(8,3000,100))]),
 'G03': dict(features='atm,cfull', variants=[('atm', '')], model='g03', specs=[S('g03.qnt',(8,150,60),(8,2500,100))]),
 'G02': dict(features='geo,cfull', variants=[('geo', '')], model='g02', specs=[S('g02.qnt',(8,60,60),(8,1200,100))]),
 'G01': dict(features='geo,cfull', variants=[('geo', '')], model='g01', specs=[S('g01.qnt',(8,120,60),(8,2500,100))]),
 'S01': dict(features='stats,cfull', variants=[('stats', '')], model='s01', specs=[S('s01.qnt',(8,200,60),(8,3000,100))]),
 'I01': dict(features='interp,cfull', model='i01', specs=[S('i01.qnt',(8,300,60),(8,4000,100))]),
 'U01': dict(features='units,cfull', variants=[('units', '')], model='u01', specs=[S('u01.qnt',(8,800,60),(8,8000,100))]),
 'A03': dict(features='frames,cfull', variants=[('frames', '')], model='a03', specs=[S('a03.qnt',(8,200,60),(8,3000,100))]),
 'A02': dict(features='att,cfull', variants=[('att', '')], model='a02', specs=[S('a02.qnt',(8,60,60),(8,900,100))]),
 'A01': dict(features='att,cfull', variants=[('att', '')], model='a01', specs=[S('a01.qnt',(8,60,60),(8,900,100))]),
 'M04': dict(features='num,cfull', variants=[('num', '')], model='m04', specs=[S('m04.qnt',(8,110,60),(8,1500,100))]),
 'M03': dict(features='serde,cfull', variants=[('serde', '')], model='m03', specs=[S('m03.qnt',(8,200,60),(8,3000,100))]),
 'M02': dict(features='solve,cfull', variants=[('solve', ''), ('solve,csimd', ''), ('solve,csimd', '-Ctarget-feature=+avx'), ('solve,csimd,cfma', '-Ctarget-feature=+avx,+fma'), ('solve,cstd,csimd', '')], model='m02', specs=[S('m02.qnt',(8,40,60),(8,800,100))]),
 'M01': dict(features='lin,cfull', variants=[('lin', ''), ('lin,csimd', ''), ('lin,csimd', '-Ctarget-feature=+avx'), ('lin,csimd,cfma', '-Ctarget-feature=+avx,+fma'), ('lin,cstd,csimd', '')], model='m01', specs=[S('m01.qnt', (8, 100, 60), (8, 1200, 100))]),
 'O02': dict(features='opt,cfull', variants=[('opt', '')], model='o02', specs=[S('o02.qnt', (8, 60, 60), (8, 800, 100))]),
 'O01': dict(features='opt,cfull', variants=[('opt', '')], model='o01', specs=[S('o01.qnt', (8, 60, 60), (8, 800, 100))]),
 'R01': dict(features='rand', model='r01', specs=[S('r01.qnt', (8, 60, 60), (8, 1000, 100))]),
 'T02': dict(features='time', model='t02', specs=[S('t02.qnt', (8, 200, 60), (8, 4000, 100))]),
 'T03': dict(features='time', model='t03', replay_threads=2, specs=[S('t03.qnt', (2, 60, 30), (2, 600, 40))]),
 'T04': dict(features='time', model='t04', specs=[S('t04.qnt', (8, 60, 50), (8, 800, 80))]),
 'T05': dict(features='time', model='t05', specs=[S('t05.qnt', (8, 200, 60), (8, 3000, 100))]),
 'T06': dict(features='time', model='t06', specs=[S('t06.qnt', (8, 200, 60), (8, 3000, 100))]),
 'V01': dict(features='viz', model='v01', specs=[S('v01.qnt', (8, 100, 80), (8, 1500, 150)), S('v03.qnt', (4, 20, 50), (8, 150, 80), model='v03')]),
 'T01': dict(features='time', model='t01', specs=[S('t01.qnt', (8, 300, 60), (8, 4000, 100))]),
}
for _k, _v in TLC.items():
    PROPS[_k]['tlc'] = _v
