import os
# Scenario table: per property the symbolic-execution scenarios that decide it.
def S(name,harness,entry,srcs=(),**kw):
    d=dict(name=name,harness=harness,entry=entry,srcs=list(srcs)); d.update(kw); return d
PROPS={}
PROPS['C17']=dict(level='other',scenarios=[
  S('history','c17.cpp','history',defs=['HIST=4'],reach=['push','decrease','increase','pop','clear','end'],workers=8,bounds='every history of 4 operations on 3 ids, keys arbitrary 32-bit',thorough=dict(defs=['HIST=5'])),
  S('step','c17.cpp','step',reach=['push','decrease','increase','pop','clear','end'],bounds='arbitrary valid 4-ary heap with 1..6 elements, one arbitrary operation, 2 pops',workers=8),
  S('copy','c17.cpp','copy'),
])
CH=['contraction_hierarchy.cpp','graph_util.cpp','bit_vector.cpp','timer.cpp','vector_io.cpp']
T13='13 fixed topologies of 4..6 nodes (paths, cycles, diamonds, stars, parallel arcs, loops, disconnected), arc weights arbitrary in 0..15'
B6='6 graphs of 12..70 nodes and 64..132 arcs (grid, random, wheel, chain, two parts, dense) with fixed weights, 2 of them arbitrary in 0..15'
PROPS['C01']=dict(level='other',scenarios=[
  S('any3','ch.cpp','dist',CH,defs=['ANY','N=3','M=3'],workers=8,bounds='every graph with 3 nodes and 3 arcs, weights 0..15'),
  S('any3pop','ch.cpp','dist',CH,defs=['ANY','N=3','M=2','POPCHOICES=4'],workers=8,bounds='every graph with 3 nodes and 2 arcs, witness pop limits 0,1,2,500'),
  S('topo','ch.cpp','dist',CH,defs=[],workers=8,bounds=T13),
  S('big','ch.cpp','dist',CH,defs=['BLO=0','BHI=5'],workers=8,bounds=B6),
])
PROPS['C02']=dict(level='other',scenarios=[
  S('any3','ch.cpp','given',CH,defs=['ANY','N=3','M=2','ALLPERM'],workers=8),
  S('topo','ch.cpp','given',CH,defs=['POPCHOICES=2','WMAX=7'],workers=8),
])
PROPS['C03']=dict(level='other',scenarios=[
  S('any3','ch.cpp','path',CH,defs=['ANY','N=3','M=2'],workers=8,reach=['end','path','unreachable']),
  S('topo','ch.cpp','path',CH,defs=[],workers=8,reach=['end','path','unreachable']),
])
PROPS['C04']=dict(level='other',scenarios=[
  S('ch_any3','ch.cpp','multi',CH,defs=['ANY','N=3','M=2','WMAX=7','ORDERS=1','THREE'],workers=8,reach=['end','path','unreachable']),
  S('ch_topo','ch.cpp','multi',CH,defs=['WMAX=7','TLO=2','THI=2','ORDERS=1'],workers=8,reach=['end','path','unreachable']),
])
PROPS['C05']=dict(level='other',scenarios=[
  S('any3','ch.cpp','pinned',CH,defs=['ANY','N=3','M=2','WMAX=7'],workers=8),
  S('topo','ch.cpp','pinned',CH,defs=['WMAX=7','TLO=2','THI=3'],workers=8),
])
PROPS['C05']['scenarios']+=[S('long','ch.cpp','pinned',CH,defs=['ANY','N=2','M=1','WMAX=3','PINLEN=4','ROUNDS=1','ORDERS=1'],workers=8,bounds='2 nodes, pinned lists of up to 4 entries')]
PROPS['C06']=dict(level='other',scenarios=[
  S('history','ch.cpp','history',CH,defs=['WMAX=7','TLO=2','THI=2','ORDERS=2'],workers=8,reach=['end','run','only source','only target','pinned targets','pinned sources','reset onto','multi']),
  S('other','ch.cpp','history_other',CH,defs=['WMAX=7','TLO=2','THI=3'],workers=8),
  S('many','ch.cpp','history_many',CH,defs=[],workers=8),
  S('abandon','ch.cpp','abandon',CH,defs=['WMAX=7','TLO=2','THI=4','ORDERS=2'],workers=8),
])
PROPS['C07']=dict(level='other',scenarios=[
  S('path','ch.cpp','extra',CH,defs=['WMAX=7','TLO=3','THI=4','ORDERS=3'],workers=8,reach=['end','path']),
  S('pinned','ch.cpp','extra_pinned',CH,defs=['WMAX=7'],workers=8,reach=['end','path']),
  S('saturate','ch.cpp','saturate',CH),
])
PROPS['C35']=dict(level='other',scenarios=[
  S('ch','ch.cpp','copies',CH,defs=['WMAX=7','TLO=0','THI=4'],workers=8),
])

CCH=['customizable_contraction_hierarchy.cpp','id_mapper.cpp','bit_select.cpp']+CH
A3=['ANY','N=3','M=2','ALLPERM']
T2=['TLO=2','THI=3','ORDERS=2','WMAX=3']
PROPS['C09']=dict(level='other',scenarios=[
  S('any3','cch.cpp','dist',CCH,defs=A3,workers=8),
  S('topo','cch.cpp','dist',CCH,defs=['WMAX=3','CLOSABLE=1'],workers=8),
  S('nolog','cch.cpp','nolog',CCH,defs=['TLO=2','THI=2']),
  S('tiny','cch.cpp','tiny',CCH),
])
PROPS['C04']['scenarios']+=[
  S('cch_any3','cch.cpp','multi',CCH,defs=['ANY','N=3','M=2','WMAX=7','ORDERS=2','FILTER=0','THREE','CLOSABLE=0'],workers=8,reach=['end','path','unreachable']),
  S('cch_topo','cch.cpp','multi',CCH,defs=['WMAX=7','TLO=2','THI=2','ORDERS=1','FILTER=1'],workers=8,reach=['end','path','unreachable']),
]
PROPS['C10']=dict(level='other',scenarios=[
  S('any3','cch.cpp','path',CCH,defs=A3,workers=8,reach=['end','path','unreachable']),
  S('topo','cch.cpp','path',CCH,defs=['WMAX=3','CLOSABLE=1'],workers=8,reach=['end','path','unreachable']),
])
PROPS['C11']=dict(level='other',scenarios=[
  S('any3','cch.cpp','pinned',CCH,defs=['ANY','N=3','M=2','WMAX=3','ORDERS=1','FILTER=0','CLOSABLE=0','PINBEFORE=0'],workers=8),
  S('topo','cch.cpp','pinned',CCH,defs=['TLO=2','THI=2','ORDERS=2','WMAX=3','FILTER=1','CLOSABLE=0','PINBEFORE=0'],workers=8),
  S('reuse','cch.cpp','pinned',CCH,defs=['TLO=2','THI=3','ORDERS=1','WMAX=3','FILTER=0','CLOSABLE=0','ROUNDS=1','FINALQ'],workers=8),
])
PROPS['C12']=dict(level='other',scenarios=[
  S('any3','cch.cpp','partial',CCH,defs=['ANY','N=3','M=2','WMAX=3','ALLPERM','FILTER=0'],workers=8),
  S('topo','cch.cpp','partial',CCH,defs=['WMAX=3','FILTER=0','ORDERS=2','CLOSABLE=0','CHANGES=1'],workers=8),
])
PROPS['C14']=dict(level='other',scenarios=[
  S('any3','cch.cpp','perfect',CCH,defs=A3,workers=8,reach=['end','path','unreachable']),
  S('topo','cch.cpp','perfect',CCH,defs=['WMAX=3','FILTER=0','CLOSABLE=0','ORDERS=3'],workers=8,reach=['end','path','unreachable']),
  S('minimal','cch.cpp','perfect_minimal',CCH,defs=['WMAX=3','FILTER=0'],workers=8),
])
PROPS['C15']=dict(level='other',scenarios=[
  S('history','cch.cpp','history',CCH,defs=['TLO=2','THI=2','ORDERS=1','WMAX=3','CLOSABLE=0','FILTER=0'],workers=8),
  S('metric','cch.cpp','metric_reset',CCH,defs=['TLO=2','THI=3','ORDERS=1','WMAX=3','CLOSABLE=1','FILTER=0'],workers=8),
])
HARN=os.path.join(os.path.dirname(os.path.abspath(__file__)),'harness')
OMP=dict(cflags=['-fopenmp','-I'+HARN+'/ompstub'],hsrcs=['omp_rt.cpp'],native_srcs=['native_omp.cpp'],native_cxx='clang++-18',native_cflags=['-Xclang','-fopenmp','-I'+HARN+'/ompstub','-include',HARN+'/omp_cas.h'],replay=['plain','tsan'],tsan_plain=True,replay_timeout=30)
PROPS['C13']=dict(level='other',assumptions=['the pragmas are compiled by clang; the OpenMP runtime library is a model (harness/omp_rt.cpp: static and dynamic schedules, barriers, single, master, critical)','sequentially consistent interleavings at atomic operations, chunk assignment and barriers; data races between plain accesses are reported; plain reads beside atomic operations are covered by the schedules'],scenarios=[
  S('small','c13.cpp','small',CCH,defs=['TLO=2','THI=7','CLOSED=1'],opts=['--race','--delay','--preempt',2,'--max-instr',20000000],workers=8,bounds='6 graphs of 4 and 5 nodes, weights 0..7, one arc may be closed, 1..3 threads, every schedule with 2 deviations from round robin',**OMP),
  S('chunks','c13.cpp','chunks',CCH,opts=['--race','--delay','--preempt',2,'--max-instr',20000000],workers=8,bounds='133 nodes, 264 arcs in the lowest level (2 chunks), 4 symbolic weights 0..7, 1..3 threads, every schedule with 2 deviations from round robin',**OMP),
  S('mixed','c13.cpp','mixed',CCH,defs=['LEAVES=128','MAXTHREADS=2'],opts=['--race','--delay','--preempt',2,'--max-instr',20000000],workers=8,bounds='145 nodes, 280 arcs in the lowest level (2 chunks), ranks not ordered by level, 3 symbolic weights 0..7, 1 and 2 threads, every schedule with 2 deviations from round robin',**OMP),
  S('tiny','c13.cpp','tiny',CCH,opts=['--race'],bounds='0..2 nodes without arcs',**OMP),
  S('serial','c13.cpp','small',CCH,defs=['TWICE','ORDERS=2'],workers=8,bounds='14 graphs of 3 to 6 nodes, 2 orders, weights 0..7, built without OpenMP, parallelization object used twice'),
])
PROPS['C35']['scenarios']+=[ S('cch','cch.cpp','copies',CCH,defs=T2+['FILTER=0'],workers=8) ]
BV=['bit_vector.cpp']
PROPS['C18']=dict(level='other',scenarios=[
  S('history','c18.cpp','history',defs=['SUBMAX=7'],workers=8,reach=['push','pop','clear','end']),
  S('subset','c18.cpp','subset',defs=['SUBMAX=8'],workers=8),
  S('large','c18.cpp','large',defs=['SUBMAX=8'],workers=8),
])
PROPS['C19']=dict(level='other',scenarios=[
  S('cmp','c19.cpp','cmp',defs=['LARGE=20','FREE=3'],workers=8),
  S('key','c19.cpp','key',defs=['LARGE=20','FREE=3'],workers=8),
  S('key0','c19.cpp','key0',defs=['LARGE=20','FREE=3']),
  S('large','c19.cpp','large',defs=['LARGE=20','FREE=2'],workers=8),
])
PROPS['C20']=dict(level='other',scenarios=[
  S('recognise','c20.cpp','recognise',BV,defs=['NMAX=3']),
  S('algebra','c20.cpp','algebra',BV,defs=['NMAX=3'],workers=8),
  S('elements','c20.cpp','elements',BV,defs=['NMAX=3'],workers=8),
  S('random','c20.cpp','random',BV,defs=['NMAX=3']),
  S('inverse_vector','c20.cpp','inverse_vector',BV,defs=['NMAX=3']),
  S('filter','c20.cpp','filter',BV,defs=['NMAX=3'],workers=8),
  S('minmax','c20.cpp','minmax',BV,defs=['NMAX=3']),
])
PROPS['C21']=dict(level='other',scenarios=[S(x,'c21.cpp',x,BV,defs=['HIST=2'],workers=8) for x in ['construct','query','single','whole','resize','grow','copy','history','order','transitive']])
PROPS['C22']=dict(level='other',scenarios=[S(x,'c22.cpp',x,BV+['id_mapper.cpp','bit_select.cpp'],defs=['NMAX=6'],workers=8) for x in ['small','word','word_local','blocks']]+[S('empty','c22.cpp','empty',BV+['id_mapper.cpp','bit_select.cpp'],defs=['NMAX=6'])])
PROPS['C16']=dict(level='other',scenarios=[
  S('any3','c16.cpp','run',defs=['ANY','N=3','M=3','SRC=1'],workers=8),
  S('topo','c16.cpp','run',defs=['TLO=0','THI=12','SRC=1'],workers=8),
  S('sources','c16.cpp','run',defs=['ANY','N=3','M=2','SRC=2','WMAX=3'],workers=8),
  S('reuse','c16.cpp','reuse',defs=['TLO=2','THI=3','SRC=1','WMAX=3'],workers=8),
  S('other','c16.cpp','other',defs=['TLO=2','THI=4','SRC=1','WMAX=3'],workers=8),
  S('many','c16.cpp','many',defs=['TLO=2','THI=4','SRC=1','WMAX=3'],workers=8),
])
SCC=['strongly_connected_component.cpp']
PROPS['C23']=dict(level='other',scenarios=[
  S('any3','c23.cpp','any',SCC,defs=['N=3','M=4'],workers=8),
  S('any4','c23.cpp','any',SCC,defs=['N=4','M=4'],workers=8),
  S('outdeg','c23.cpp','outdeg',SCC,defs=['N=5','M=4'],workers=8),
  S('tiny','c23.cpp','tiny',SCC,defs=['N=3','M=4']),
])
ND=['nested_dissection.cpp','graph_util.cpp','bit_vector.cpp','id_mapper.cpp','bit_select.cpp','timer.cpp']
PROPS['C24']=dict(level='other',scenarios=[
  S('any4','c24.cpp','flow',ND,defs=['ANY','N=4','M=3','COORD=1'],workers=8),
  S('topo','c24.cpp','flow',ND,defs=['TLO=0','THI=7','COORD=1'],workers=8),
  S('separator','c24.cpp','separator',ND,defs=['TLO=0','THI=7','COORD=1'],workers=8),
  S('inertial','c24.cpp','inertial',ND,defs=['TLO=0','THI=7','COORD=1'],workers=8),
])
PROPS['C25']=dict(level='other',scenarios=[
  S('fragment','c25.cpp','fragment',ND,defs=['ANY','N=4','M=3'],workers=8),
  S('dissect','c25.cpp','dissect',ND,defs=['ANY','N=4','M=3'],workers=8),
  S('topo','c25.cpp','order',ND,defs=['TLO=0','THI=12'],workers=8),
  S('tiny','c25.cpp','tiny',ND,defs=['TLO=0','THI=12']),
  S('inertial','c25.cpp','inertial',ND,defs=['TLO=0','THI=12'],workers=8),
])
PROPS['C26']=dict(level='other',scenarios=[S(x,'c26.cpp',x,['graph_util.cpp'],workers=8) for x in ['find','find_large','paths','sort']])
PB=['protobuf.cpp']
PROPS['C28']=dict(level='other',scenarios=[
  S('varint','c28.cpp','varint',PB,defs=['LEN=6','FIELDS=3'],reach=['ok','malformed','end'],workers=8,bounds='every byte string of up to 12 bytes'),
  S('zigzag','c28.cpp','zigzag',PB,defs=['LEN=6','FIELDS=3'],bounds='every 64-bit value'),
  S('bytes','c28.cpp','bytes',PB,defs=['LEN=6','FIELDS=3'],reach=['ok','malformed','end'],workers=8,bounds='every message of up to 6 bytes',thorough=dict(defs=['LEN=9','FIELDS=3'],bounds='every message of up to 9 bytes')),
  S('fields','c28.cpp','fields',PB,defs=['LEN=6','FIELDS=3'],reach=['ok','malformed','end'],workers=8,bounds='1..3 fields of every type with arbitrary ids and contents, cut off by 0..2 bytes',thorough=dict(defs=['LEN=6','FIELDS=4'],bounds='1..4 fields')),
  S('huge','c28.cpp','huge',PB,defs=['LEN=6','FIELDS=3'],reach=['ok','malformed','end'],workers=8,bounds='a string field with every announced length up to 2^64-1'),
])
PROPS['C29']=dict(level='other',scenarios=[
  S('list','c29.cpp','list',defs=['CNT=3'],workers=8,bounds='every list of up to 3 tags over 16 keys with colliding hashes'),
  S('rebuild','c29.cpp','rebuild',defs=['CNT=3'],workers=8,bounds='every two lists of up to 2 tags, rebuild/clear/copy in between'),
  S('chars','c29.cpp','chars',defs=['CNT=3'],workers=8,reach=['found','end'],bounds='keys of 1..3 bytes, one of them arbitrary, looked up with that byte arbitrary or the last one missing'),
  S('many','c29.cpp','many',defs=['CNT=3'],workers=3,bounds='65535, 65536 and 65540 tags'),
])

IO=['vector_io.cpp','bit_vector.cpp']
PROPS['C34']=dict(level='other',assumptions=['files are modelled in memory while executing symbolically (harness/stubs/fstream); replays use real files'],scenarios=[
  S('pod','c34.cpp','pod',IO,defs=['VLEN=3'],stubs=True,workers=8,bounds='vectors of 0..3 arbitrary elements of 1, 2, 4 and 8 byte types, double and a struct'),
  S('length','c34.cpp','length',IO,defs=['VLEN=3'],stubs=True,workers=4,bounds='files of 0..17 arbitrary bytes'),
  S('strings','c34.cpp','strings',IO,defs=['VLEN=3'],stubs=True,workers=8,bounds='0..3 strings without NUL bytes of 0, 1, 2 and 20 characters'),
  S('bits','c34.cpp','bits',IO,defs=['VLEN=3'],stubs=True,workers=8,bounds='bit vectors of 15 sizes from 0 to 1500 with arbitrary bits'),
  S('bits_header','c34.cpp','bits_header',IO,defs=['VLEN=3'],stubs=True,workers=4,reach=['ok','rejected','end'],bounds='bit vector files of up to 139 bytes with an arbitrary 64-bit header'),
  S('missing','c34.cpp','missing',IO,defs=['VLEN=3'],stubs=True,bounds='10 operations on files that cannot be opened'),
])
PROPS['C08']=dict(level='other',assumptions=PROPS['C34']['assumptions'],scenarios=[
  S('arrays','c08.cpp','arrays',CH,stubs=True,workers=8,bounds='0..2 nodes, 0..3 arcs per side, all array contents arbitrary; callbacks, streams and files'),
  S('wide','c08.cpp','wide',CH,stubs=True,workers=8,bounds='0, 64, 511, 512, 513, 1024 and 1025 arcs per side'),
  S('built','c08.cpp','built',CH,defs=['TLO=2','THI=4'],stubs=True,workers=8,bounds='3 topologies, weights 0..7'),
  S('magic','c08.cpp','magic',CH,stubs=True,workers=4,bounds='every wrong 64-bit magic number'),
  S('header','c08.cpp','header',CH,stubs=True,workers=4,reach=['rejected','end'],bounds='every node and arc count in the header'),
  S('size','c08.cpp','size',CH,stubs=True,workers=4,bounds='every announced 64-bit size'),
  S('cut','c08.cpp','cut',CH,stubs=True,workers=8,bounds='a file of 2 nodes and 3 arcs cut at every byte'),
])

AR=['buffered_asynchronous_reader.cpp']; ARK=dict(native_srcs=['native_sched.cpp'],libs=['-ldl'],replay=['plain','valgrind','tsan'],replay_timeout=20,workers=8)
PROPS['C31']=dict(level='other',assumptions=['sequentially consistent interleavings at lock, unlock, wait, notify, thread start and join; everything in between is checked for data races (happens-before)'],scenarios=[
  S('stream','c31.cpp','stream',AR,defs=['BS=3','TAIL=7','READS=1','FREE=1'],opts=['--race','--preempt',1],reach=['eof','end'],bounds='blocks of 1..3 bytes, every ring position, up to 7 further bytes, arbitrary first and next chunk, 1 arbitrary read; every schedule with 1 preemption',**ARK),
  S('reads','c31.cpp','stream',AR,defs=['BS=2','TAIL=4','READS=2','FREE=2'],opts=['--race','--preempt',1,'--spurious',1],reach=['eof','end'],bounds='blocks of 1 and 2 bytes, every ring position, up to 4 further bytes, 2 arbitrary chunks, 2 arbitrary reads; every schedule with 1 preemption and 1 spurious wakeup',thorough=dict(opts=['--race','--preempt',2,'--spurious',1]),**ARK),
  S('failure','c31.cpp','failure',AR,defs=['BS=2','FREE=2','FAILMAX=4'],opts=['--race','--preempt',2],bounds='failure in call 0..4; every schedule with 2 preemptions',**ARK),
  S('destroy','c31.cpp','destroy',AR,defs=['BS=2','FREE=2'],opts=['--race','--preempt',2],bounds='0..2 reads before destruction, moves; every schedule with 2 preemptions',**ARK),
])

OP=['osm_profile.cpp']
PROPS['C30']=dict(level='other',scenarios=[
  S('car_used','c30.cpp','car_used',OP,workers=8,bounds='9 tags, each absent or an arbitrary byte string (highway up to 20 bytes)'),
  S('bicycle_used','c30.cpp','bicycle_used',OP,workers=8,bounds='10 tags, each absent or an arbitrary byte string'),
  S('pedestrian_used','c30.cpp','pedestrian_used',OP,workers=8,bounds='8 tags, each absent or an arbitrary byte string'),
  S('car_direction','c30.cpp','car_direction',OP,workers=8,bounds='oneway, junction and highway absent or arbitrary'),
  S('bicycle_direction','c30.cpp','bicycle_direction',OP,workers=8,bounds='6 tags absent or arbitrary'),
  S('comfort','c30.cpp','comfort',OP,bounds='3 tags absent or arbitrary'),
  S('name','c30.cpp','name',OP,bounds='5 values of name and ref'),
  S('speed_class','c30.cpp','speed_class',OP,workers=8,bounds='8 unusable speed limits, 4 tags absent or arbitrary'),
  S('speed_value','c30.cpp','speed_value',OP,workers=8,bounds='lists of 1 or 2 speed limits out of 38 words or arbitrary numbers (alone 1..3 digits, in lists 1..2) with 11 units',defs=['ML=3']),
  S('speed_bytes','c30.cpp','speed_bytes',OP,workers=8,defs=['ML=5'],bounds='every byte string of up to 5 bytes',thorough=dict(defs=['ML=6'],bounds='every byte string of up to 6 bytes')),
  S('speed_long','c30.cpp','speed_long',OP,bounds='values of 10..2100 characters'),
  S('logged','c30.cpp','logged',OP,workers=4,bounds='1176 tag combinations with and without log function'),
  S('restriction_value','c30.cpp','restriction_value',OP,workers=4,bounds='every restriction value of up to 17 bytes'),
  S('restriction_members','c30.cpp','restriction_members',OP,workers=8,defs=['MEMBERS=4'],bounds='up to 3 members of every role and type or 4 nodes and ways with roles via, from and to; arbitrary ids',thorough=dict(defs=['MEMBERS=5'],bounds='up to 3 members of every role and type or 5 nodes and ways with roles via, from and to')),
])

GB=['osm_graph_builder.cpp','osm_simple.cpp','osm_profile.cpp','bit_vector.cpp','id_mapper.cpp','bit_select.cpp','graph_util.cpp','timer.cpp']
PROPS['C33']=dict(level='other',assumptions=['the PBF reader is replaced by an in-memory data set (its own property is C32); trigonometric functions are evaluated for the concrete positions of the data sets; arc lengths are compared with a tolerance of one meter','a mandatory restriction without via node whose from and to way are the same is checked for one-way ways only'],scenarios=[
  S('one','c33.cpp','one',GB,workers=8,bounds='one way of 0..4 arbitrary nodes out of 4; all directions, geometry modes, requested nodes, missing nodes',thorough=dict(defs=['SEQ=5'],bounds='one way of 0..5 nodes')),
  S('two','c33.cpp','two',GB,workers=8,bounds='two ways of 3 and 2..3 arbitrary nodes out of 4'),
  S('many','c33.cpp','many',GB,workers=8,bounds='three ways of up to 6 nodes out of 6 sequences'),
  S('turns','c33.cpp','turns',GB,workers=8,reach=['forbidden','end'],bounds='8 crossings, all way directions, every restriction over known and unknown ways and nodes, alone, doubled and between two others with or without via node'),
  S('simple_car','c33.cpp','simple_car',GB,workers=8,reach=['forbidden','end'],bounds='3 data sets, arbitrary speed limit of 1..2 digits, arcs up to 10000 km',thorough=dict(defs=['SD=3'],bounds='3 data sets, arbitrary speed limit of 1..3 digits')),
  S('simple_bicycle','c33.cpp','simple_bicycle',GB,workers=4,bounds='bicycle and pedestrian graph of 5 ways'),
])

OD=['osm_decoder.cpp','buffered_asynchronous_reader.cpp','file_data_source.cpp','protobuf.cpp','timer.cpp']
ODK=dict(native_cflags=['-DRK_NATIVE'],replay=['plain','asan','valgrind'],replay_timeout=30)
def D(name,**kw):
    o=['--alloc-limit',1<<29]+kw.pop('opts',['--one-sched','--preempt',0]); d=dict(ODK); d.update(kw); d.setdefault('workers',8); return S(name,'c32.cpp',d.pop('entry',name),OD,opts=o,**d)
PROPS['C32']=dict(level='other',assumptions=['the file is an array in memory behind open, read and lseek; zlib is replaced by a byte-wise transformation with its error results','node positions are fixed values, ids and strings are symbolic','every scenario except schedules runs under one schedule of the reading threads'],scenarios=[
  D('dense',defs=['CNT=2'],bounds='0..2 densely encoded nodes, arbitrary ids of up to 3 varint bytes, 4 grids with offsets, 4 tag sets, present, empty and absent tag array',thorough=dict(defs=['CNT=3','IDLEN=10'])),
  D('sparse',defs=['CNT=2'],bounds='0..2 single nodes, arbitrary ids of up to 3 varint bytes, 3 grids',thorough=dict(defs=['CNT=3'])),
  D('ways',defs=['CNT=2','IDLEN=10'],bounds='0..2 ways of 0..3 nodes, arbitrary 64-bit ids'),
  D('relations',defs=['CNT=2'],bounds='0..2 relations of 0..2 members, arbitrary ids of up to 3 varint bytes, all member types'),
  D('relations64',entry='relations',defs=['CNT=1','IDLEN=10'],bounds='0..1 relations, arbitrary 64-bit ids'),
  D('strings',bounds='a string of 0, 1, 2, 3, 127, 128 or 200 bytes with arbitrary first two and last bytes'),
  D('files',bounds='0..2 blobs (raw or compressed) of two objects, unknown blocks and fields, 6 headers, reads of 1, 7 or all bytes, 4 sets of callbacks'),
  D('ordered',reach=['empty','end'],bounds='0..3 blobs in any order, 6 headers, every set of callbacks'),
  D('schedules',opts=['--race','--preempt',1],replay=['plain','tsan'],native_srcs=['native_sched.cpp'],bounds='6 headers, 0 or 1 blob, ordered and unordered reading; every schedule with 1 preemption, data races'),
  D('stopped',bounds='the callback throws at any of 6 objects, the first or second read fails'),
  D('missing',bounds='file can not be opened'),
  D('malformed',bounds='25 kinds of malformed blocks, arbitrary out of range string ids of 2 varint bytes'),
  D('badblobs',bounds='9 kinds of malformed blobs, arbitrary wrong size of up to 4 varint bytes'),
  D('truncated',bounds='a file with header, unknown block and data cut at every byte'),
  D('damaged',opts=['--one-sched','--preempt',0,'--max-ite',1],defs=['KINDS=4'],bounds='a file with one node, way or relation with any single byte replaced by any value: no invalid memory access'),
  D('arbitrary',opts=['--one-sched','--preempt',0,'--max-ite',1],defs=['BYTES=6'],bounds='block, group, dense node, way or relation of 6 arbitrary bytes: no invalid memory access',thorough=dict(defs=['BYTES=8'])),
  D('features',bounds='header features of 0..12 bytes with an arbitrary last byte'),
])
GEO=['geo_position_to_node.cpp']
PROPS['C27']=dict(level='other',assumptions=['positions, query and radius come from catalogues of 16, 16 and 8 values, further points are fixed; sin, cos, acos, atan2 are the C library functions','distances are compared with a tolerance of 10 m, 0.5 m for points close to each other (the tree prunes with rounded single-precision distances)'],scenarios=[
  S('world','c27.cpp','lookup',GEO,opts=['--fp-tables'],workers=8,bounds='10 points, 2 of them and the query anywhere in a catalogue of 16 places (poles, antimeridian, antipodes), 8 radii, 2 sets of fixed points'),
  S('city','c27.cpp','lookup',GEO,defs=['CITY=1'],opts=['--fp-tables'],workers=8,bounds='10 points, 2 of them and the query anywhere in 16 places up to 500 m apart, 8 radii, 2 sets of fixed points'),
  S('antipodes','c27.cpp','lookup',GEO,defs=['CITY=2'],opts=['--fp-tables'],workers=8,bounds='a point and 9 points near its antipode, 2 of them and the query anywhere in 16 places, 8 radii'),
  S('antipodes2','c27.cpp','lookup',GEO,defs=['CITY=3','POINTS=20','FIRSTSYM=11'],opts=['--fp-tables'],workers=8,bounds='20 points, half of them near the antipode of the pivot of an inner node, 2 of these and the query anywhere in 16 places, 8 radii'),
  S('pivot','c27.cpp','lookup',GEO,defs=['FIRSTSYM=0','POINTS=12'],opts=['--fp-tables'],workers=8,bounds='as world, 12 points, the symbolic ones first'),
  S('deep','c27.cpp','lookup',GEO,defs=['POINTS=34','FIRSTSYM=16'],opts=['--fp-tables'],workers=8,bounds='as world, 34 points (tree of height 3)'),
  S('deepcity','c27.cpp','lookup',GEO,defs=['CITY=1','POINTS=34','FIRSTSYM=16','SEEDS=1','SYMS=1'],opts=['--fp-tables'],workers=8,bounds='as city, 34 points (tree of height 3)'),
  S('few','c27.cpp','few',GEO,opts=['--fp-tables'],workers=8,bounds='0..3 points in 16 places, query, 8 radii'),
  S('metric','c27.cpp','metric',GEO,opts=['--fp-tables'],workers=1,bounds='16 x 16 places'),
  S('metriccity','c27.cpp','metric',GEO,defs=['CITY=1'],opts=['--fp-tables'],workers=1,bounds='16 x 16 places'),
  S('inclusive','c27.cpp','inclusive',GEO,opts=['--fp-tables'],workers=8,bounds='1 or 2 points in 16 places, radius equal to the distance of the nearest point'),
  S('equal','c27.cpp','equal',GEO,opts=['--fp-tables'],workers=8,bounds='8..19 points at one or two places'),
])

# larger graphs
PROPS['C01']['scenarios']+=[
  S('bigscale','ch.cpp','dist',CH,defs=['BLO=0','BHI=5','BIGSCALE=3000001'],workers=8,bounds=B6.replace('0..15','0..15')+', all weights multiplied by 3000001 (path lengths up to 10^9)')
]
PROPS['C02']['scenarios']+=[
  S('big','ch.cpp','given',CH,defs=['BLO=0','BHI=5','ORDERS=2','SYMS=1','POPCHOICES=2'],workers=8,bounds=B6.replace('2 of them','1 of them')+', 2 orders, pop limits 500 and 0')
]
PROPS['C03']['scenarios']+=[
  S('big','ch.cpp','path',CH,defs=['BLO=0','BHI=5','ORDERS=1'],workers=8,reach=['end','path','unreachable'],bounds=B6)
]
PROPS['C04']['scenarios']+=[
  S('ch_big','ch.cpp','multi',CH,defs=['BLO=0','BHI=5','ORDERS=1','SYMS=1','WMAX=7','PICKS=2','THREE'],workers=8,reach=['end','path','unreachable'],bounds=B6),
  S('cch_big','cch.cpp','multi',CCH,defs=['BLO=0','BHI=5','ORDERS=1','SYMS=1','WMAX=7','FILTER=0'],workers=8,reach=['end','path','unreachable'],bounds=B6)
]
PROPS['C05']['scenarios']+=[
  S('big','ch.cpp','pinned',CH,defs=['BLO=0','BHI=5','ORDERS=1','SYMS=1'],workers=8,bounds=B6)
]
PROPS['C06']['scenarios']+=[
  S('big','ch.cpp','history',CH,defs=['BLO=0','BHI=4','ORDERS=1','SYMS=1','HIST=2','PICKS=2'],workers=8,bounds=B6)
]
PROPS['C07']['scenarios']+=[
  S('big','ch.cpp','extra',CH,defs=['BLO=0','BHI=5','ORDERS=1','SYMS=1'],workers=8,reach=['end','path'],bounds=B6)
]
PROPS['C09']['scenarios']+=[
  S('big','cch.cpp','dist',CCH,defs=['BLO=0','BHI=5','ORDERS=2'],workers=8,bounds=B6),
  S('bigscale','cch.cpp','dist',CCH,defs=['BLO=0','BHI=5','ORDERS=1','BIGSCALE=3000001'],workers=8,bounds=B6)
]
PROPS['C10']['scenarios']+=[
  S('big','cch.cpp','path',CCH,defs=['BLO=0','BHI=5','ORDERS=1'],workers=8,reach=['end','path','unreachable'],bounds=B6)
]
PROPS['C11']['scenarios']+=[
  S('big','cch.cpp','pinned',CCH,defs=['BLO=0','BHI=5','ORDERS=1','SYMS=1','FILTER=0','PINBEFORE=0'],workers=8,bounds=B6)
]
PROPS['C12']['scenarios']+=[
  S('big','cch.cpp','partial',CCH,defs=['BLO=0','BHI=5','ORDERS=1','SYMS=1','FILTER=0','CHANGES=1','PICKS=2','WMAX=3'],workers=8,bounds=B6)
]
PROPS['C14']['scenarios']+=[
  S('big','cch.cpp','perfect',CCH,defs=['BLO=0','BHI=5','ORDERS=1','SYMS=2','FILTER=0'],workers=8,reach=['end','path','unreachable'],bounds=B6)
]
PROPS['C15']['scenarios']+=[
  S('big','cch.cpp','history',CCH,defs=['BLO=0','BHI=3','ORDERS=1','SYMS=1','FILTER=0','PICKS=2'],workers=8,bounds=B6),
  S('bigmetric','cch.cpp','metric_reset',CCH,defs=['BLO=0','BHI=4','ORDERS=1','SYMS=1','FILTER=0','PICKS=2'],workers=8,bounds=B6)
]
PROPS['C35']['scenarios']+=[
  S('chbig','ch.cpp','copies',CH,defs=['BLO=0','BHI=4','ORDERS=1','SYMS=1','PICKS=2'],workers=8,bounds=B6),
  S('cchbig','cch.cpp','copies',CCH,defs=['BLO=0','BHI=4','ORDERS=1','SYMS=1','FILTER=0','PICKS=2'],workers=8,bounds=B6)
]

PROPS['C04']['scenarios']+=[
  S('ch_many','ch.cpp','manysrc',CH,defs=['BLO=0','BHI=5','ORDERS=1','SYMS=1','WMAX=7'],workers=8,reach=['end','path'],bounds=B6.replace('2 of them','1 of them')+', 7 sources and 6 targets with repeated nodes, arbitrary offsets 0..15 of the last ones'),
  S('cch_many','cch.cpp','manysrc',CCH,defs=['BLO=0','BHI=5','ORDERS=1','SYMS=1','WMAX=7','FILTER=1'],workers=8,reach=['end','path'],bounds=B6.replace('2 of them','1 of them')+', 7 sources and 6 targets with repeated nodes, arbitrary offsets 0..15 of the last ones'),
]

PROPS['C16']['scenarios']+=[
  S('big','c16.cpp','run',defs=['BLO=0','BHI=5','SRC=1'],workers=8,bounds=B6+', one of which may be closed, others closed'),
  S('bigsources','c16.cpp','run',defs=['BLO=0','BHI=5','SRC=2','SYMS=1'],workers=8,bounds=B6.replace('2 of them','1 of them')+', two sources with arbitrary offsets'),
  S('bigreuse','c16.cpp','reuse',defs=['BLO=0','BHI=3','SRC=1','SYMS=1','PICKS=2'],workers=8,bounds='4 of these graphs after two partial runs'),
]
PROPS['C17']['scenarios']+=[S('big','c17.cpp','big',workers=8,bounds='heaps of 5..86 elements with fixed keys, two operations, one of them with an arbitrary key, then drained')]
PROPS['C20']['scenarios']+=[S(x,'c20.cpp',x,BV,defs=['NMAX=3'],workers=8,bounds=b) for x,b in (('owning','0..4 elements that are vectors with arbitrary contents, every permutation and selection'),('big','vectors of 5..513 arbitrary elements, fixed permutations'),('big_recognise','permutations of 5..513 elements with one entry replaced by any value'),('big_inverse','sorted vectors of 5..513 entries, one of them arbitrary'))]
PROPS['C23']['scenarios']+=[S('big','c23.cpp','big',SCC,defs=['N=3','M=4'],workers=8,bounds='6 graphs of 24..70 nodes, three arcs with one of 5 heads')]
PROPS['C18']['scenarios']+=[S('big','c18.cpp','big',defs=['SUBMAX=8'],workers=8,bounds='capacities 20..1025, 60 fixed pushes with pops in between, one of 7 ids')]
PROPS['C29']['scenarios']+=[S('middle','c29.cpp','middle',defs=['CNT=3'],workers=8,bounds='4..200 tags, two of them with the same key')]

PROPS['C21']['scenarios']+=[S(x+'_wide','c21.cpp',x,BV,defs=['HIST=2','WIDE'],workers=8,bounds='sizes up to 20000, 3 arbitrary words') for x in ['construct','query','single','whole','resize','grow','copy','history','order']]
PROPS['C24']['scenarios']+=[S('big','c24.cpp','big',ND,defs=['ANY','N=4','M=3','COORD=1'],workers=8,bounds='4 graphs of 22..28 nodes with two further arcs, 4 pairs of terminal sets'),S('big_inertial','c24.cpp','big_inertial',ND,defs=['ANY','N=4','M=3','COORD=1'],workers=8,bounds='4 graphs of 22..28 nodes with two further arcs, 4 balances')]
PROPS['C25']['scenarios']+=[S('big','c25.cpp','big',ND,defs=['ANY','N=4','M=3'],workers=8,bounds='5 graphs of 24..70 nodes with a further arc, three kinds of separators'),S('big_inertial','c25.cpp','big_inertial',ND,defs=['ANY','N=4','M=3'],workers=8,bounds='5 graphs of 24..70 nodes with a further arc')]
PROPS['C26']['scenarios']+=[S('big_find','c26.cpp','big_find',['graph_util.cpp'],workers=8,bounds='15..100 arcs, one head and the target arbitrary'),S('big_sort','c26.cpp','big_sort',['graph_util.cpp'],workers=8,bounds='40 and 150 arcs, two of them arbitrary out of 16, 7..3000 nodes'),S('big_paths','c26.cpp','big_paths',['graph_util.cpp'],workers=8,bounds='walks of 40 arcs in 5 graphs')]
PROPS['C34']['scenarios']+=[S('long_vectors','c34.cpp','long_vectors',IO,defs=['VLEN=3'],stubs=True,workers=8,bounds='vectors of 16..20000 elements, 5 of them arbitrary')]
PROPS['C31']['scenarios']+=[S('longstream','c31.cpp','longstream',AR,opts=['--race','--preempt',0],bounds='blocks of 8..1000 bytes, 0..12 blocks, 3 chunkings, 5 patterns of reads, schedules without preemption',**ARK)]
PROPS['C36']=dict(level='other',assumptions=[],scenarios=[
  S('ops','c36.cpp','ops',defs=['OPS=4'],workers=4,bounds='0..3 flags, 4 arbitrary operations (set, reset one, reset all, copy)',thorough=dict(defs=['OPS=6'])),
  S('word','c36.cpp','word',workers=2,bounds='64 flags, 4 arbitrary ids'),
  S('wrap','c36.cpp','wrap',workers=8,bounds='8 moments of setting, followed by up to 66000 resets each checked, 2 arbitrary operations'),
  S('around','c36.cpp','around',defs=['NN=2'],workers=8,bounds='65530..65540 and 131065..131075 resets, 3 arbitrary operations'),
])
NP=['-DROUTING_KIT_NO_POSIX','-include','stdio_model.h']; YP=['-include','posix_model.h']
PROPS['C37']=dict(level='other',assumptions=['open, read, lseek, fstat and close (or the stdio functions in the build without POSIX) are a model with chosen short reads and failures'],scenarios=[
  S('ops','c37.cpp','ops',['file_data_source.cpp'],defs=['OPS=3','LEN=3'],cflags=YP,native_cflags=YP,workers=8,replay=['plain'],bounds='files of 0..3 and 1..2 arbitrary bytes, 2 objects, 3 arbitrary operations (open, close, read, rewind, moves, construction), 3 short-read behaviours',thorough=dict(defs=['OPS=4','LEN=4'])),
  S('failures','c37.cpp','failures',['file_data_source.cpp'],cflags=YP,native_cflags=YP,workers=4,replay=['plain'],bounds='every operating system call fails once'),
  S('ops_stdio','c37.cpp','ops',['file_data_source.cpp'],defs=['OPS=3','LEN=2'],cflags=NP,native_cflags=NP,workers=8,replay=['plain'],bounds='as ops, build without POSIX'),
  S('failures_stdio','c37.cpp','failures',['file_data_source.cpp'],cflags=NP,native_cflags=NP,workers=4,replay=['plain'],bounds='as failures, build without POSIX'),
])
VF=dict(reach=['accepted','rejected','end'],workers=8)
PROPS['C38']=dict(level='other',assumptions=[],scenarios=[
  S('plain','c38.cpp','plain',['verify.cpp'],bounds='index of 0..5 and 0..4 heads, every 32-bit value',thorough=dict(defs=['NS=6']),**VF),
  S('points','c38.cpp','points',['verify.cpp'],bounds='0..3 arcs and points, every 32-bit value and period',**VF),
  S('timed','c38.cpp','timed',['verify.cpp'],bounds='0..2 nodes, arcs and points, every 32-bit value and period',**VF),
  S('queries','c38.cpp','queries',['verify.cpp'],bounds='0..2 queries, every 32-bit value, period and node count',**VF),
])
VIO=['vector_io.cpp','bit_vector.cpp']
DG='convert_road_dimacs_graph.cpp'; DX='export_road_dimacs_graph.cpp'; DC='convert_road_dimacs_coordinates.cpp'; ENC='encode_vector.cpp'; DEC='decode_vector.cpp'; RP='randomly_permute_nodes.cpp'
C39S=VIO+[DG,DX,DC,ENC,DEC,RP]
C39A=['streams and files are modelled in memory while executing symbolically (harness/stubs); replays use the real ones']
PROPS['C39']=dict(level='other',assumptions=C39A,scenarios=[
  S('import_graph','c39.cpp','import_graph',C39S,stubs=True,workers=8,bounds='up to 3 nodes and 2 arcs, arbitrary digits, 4 layouts',defs=['MM=2'],thorough=dict(defs=['MM=3'])),
  S('broken_graph','c39.cpp','broken_graph',C39S,stubs=True,workers=4,bounds='20 kinds of broken files'),
  S('export_graph','c39.cpp','export_graph',C39S,stubs=True,workers=8,bounds='up to 3 nodes and 3 arcs'),
  S('bad_export','c39.cpp','bad_export',C39S,stubs=True,bounds='5 invalid graphs'),
  S('coordinates','c39.cpp','coordinates',C39S,stubs=True,workers=8,bounds='up to 3 nodes in every order, 7 coordinate values, 8 kinds of mistakes'),
  S('no_coordinates','c39.cpp','no_coordinates',C39S,stubs=True,bounds='7 kinds of broken files'),
  S('vectors','c39.cpp','vectors',C39S,stubs=True,workers=8,bounds='0..3 numbers of 7 extreme and ordinary values in 8 types'),
  S('strings','c39.cpp','strings',C39S,stubs=True,workers=8,bounds='0..2 strings of up to 4 characters out of backslash, n, newline and a'),
  S('permute','c39.cpp','permute',C39S,stubs=True,workers=8,bounds='every graph of up to 3 nodes and 3 arcs, arbitrary weights, 4 seeds'),
])
C40S=CH+['verify.cpp','nested_dissection.cpp','run_dijkstra.cpp','compute_contraction_hierarchy.cpp','run_contraction_hierarchy_query.cpp','generate_test_queries.cpp','generate_random_node_list.cpp','generate_constant_vector.cpp','generate_random_source_times.cpp','generate_dijkstra_rank_test_queries.cpp','compute_geographic_distance_weights.cpp','compute_nested_dissection_order.cpp']
PROPS['C40']=dict(level='other',assumptions=C39A,scenarios=[
  S('dijkstra','c40.cpp','dijkstra',C40S,stubs=True,workers=8,bounds='4 topologies, weights 0..15, 0..3 queries'),
  S('hierarchy','c40.cpp','hierarchy',C40S,stubs=True,workers=8,bounds='4 topologies, weights 0..15, 0..3 queries'),
  S('big_dijkstra','c40.cpp','dijkstra',C40S,defs=['BLO=0','BHI=2','SYMS=1'],stubs=True,workers=8,bounds='3 graphs of 12..70 nodes, one arbitrary weight'),
  S('big_hierarchy','c40.cpp','hierarchy',C40S,defs=['BLO=0','BHI=2','SYMS=1'],stubs=True,workers=8,bounds='3 graphs of 12..70 nodes, one arbitrary weight'),
  S('broken','c40.cpp','broken',C40S,stubs=True,workers=4,bounds='12 kinds of invalid input'),
  S('noarcs','c40.cpp','noarcs',C40S,stubs=True,bounds='1..3 nodes without arcs'),
  S('generate','c40.cpp','generate',C40S,stubs=True,workers=8,bounds='5 node counts, 0..6 queries, 6 seeds'),
  S('ranks','c40.cpp','ranks',C40S,stubs=True,workers=4,reach=['some','end'],bounds='a path and a cycle of 140 nodes, 4 seeds, one arbitrary weight'),
  S('geo','c40.cpp','geo',C40S,stubs=True,workers=8,bounds='3 nodes, 4 latitudes and longitudes each'),
  S('order','c40.cpp','order',C40S,stubs=True,workers=4,bounds='4 topologies'),
])

# texts of bounds that follow from the definitions of a scenario
PROPS['C41']=dict(level='other',scenarios=[
  S('accepts_any','c41.cpp','accepts',CH,defs=['ANY','N=3','M=2'],workers=8,bounds='every graph with 3 nodes and 2 arcs, weights 0..7, three ways of building'),
  S('accepts_topo','c41.cpp','accepts',CH,defs=['WMAX=3'],workers=8,bounds='13 topologies of 3..6 nodes, weights 0..3, three ways of building'),
  S('accepts_big','c41.cpp','accepts',CH,defs=['BLO=0','BHI=5','SYMS=1'],workers=8,bounds=B6.replace('2 of them','1 of them')+', three ways of building'),
  S('perfect_topo','c41.cpp','perfect',CCH,defs=['WMAX=3','PERFECT'],workers=8,bounds='13 topologies of 3..6 nodes, weights 0..3'),
  S('perfect_big','c41.cpp','perfect',CCH,defs=['BLO=0','BHI=5','SYMS=1','PERFECT'],workers=8,bounds=B6.replace('2 of them','1 of them')),
  S('entry','c41.cpp','entry',CH,reach=['rejected','end'],workers=8,bounds='4 hierarchies of 2..5 nodes, every entry of every array replaced by every 32-bit value'),
  S('flag','c41.cpp','flag',CH,bounds='4 hierarchies of 2..5 nodes, every flag flipped'),
  S('size','c41.cpp','size',CH,bounds='4 hierarchies of 2..5 nodes, every array one element longer or shorter or empty'),
])
# two larger graphs, one symbolic weight
BL='a grid of 144 nodes and a random graph of 200 nodes with a hub (510..580 arcs), one weight arbitrary in 0..15'
for _p,_h,_e,_s,_d in [('C01','ch.cpp','dist',CH,['ORDERS=1']),('C02','ch.cpp','given',CH,['ORDERS=2','POPCHOICES=2','PICKS=2']),('C03','ch.cpp','path',CH,['ORDERS=1','PICKS=2']),('C05','ch.cpp','pinned',CH,['ORDERS=1','PICKS=2']),
  ('C09','cch.cpp','dist',CCH,['ORDERS=1']),('C10','cch.cpp','path',CCH,['ORDERS=1','PICKS=2']),('C11','cch.cpp','pinned',CCH,['ORDERS=1','FILTER=0','PINBEFORE=0','PICKS=2']),('C12','cch.cpp','partial',CCH,['ORDERS=1','FILTER=0','CHANGES=1','PICKS=2','WMAX=3']),('C14','cch.cpp','perfect',CCH,['ORDERS=1','FILTER=0','PICKS=2']),('C16','c16.cpp','run',[],['SRC=1'])]:
  PROPS[_p]['scenarios'].append(S('larger',_h,_e,_s,defs=['BLO=6','BHI=7','SYMS=1']+_d,workers=8,bounds=BL,opts=['--max-instr',4000000000],**({} if _p in('C01','C03','C16') else dict(tiers=('thorough',)))))
# more than 65536 of everything
def HUGE(pid,entry,srcs,bounds,**kw): kw.setdefault('opts',['--max-instr',4000000000]); PROPS[pid]['scenarios'].append(S('huge' if not kw.get('nm') else kw.pop('nm'),'huge.cpp',entry,srcs,defs=['E_'+entry],bounds=bounds,**kw))
HB='66000 nodes and 82500 arcs (16500 equal parts), the 5 weights of the last part arbitrary in 0..7'
for _p in ['C01','C03','C05']: HUGE(_p,'ch',CH,HB)
for _p in ['C09','C10','C11']: HUGE(_p,'cch',CCH,HB)
HUGE('C12','partial',CCH,HB)
HUGE('C16','dijkstra',[],HB)
HUGE('C17','queue',[],'66100 elements, one arbitrary key')
HUGE('C18','idset',[],'66100 and 131100 ids, 6 pushed ids')
HUGE('C19','sort',[],'66100 elements with fixed keys below 3, 70000 and 1000000')
HUGE('C20','perm',[],'70000 elements, one arbitrary entry')
HUGE('C22','mapper',['id_mapper.cpp','bit_select.cpp','bit_vector.cpp'],'140000 bits, fixed pattern with one free bit')
HUGE('C23','scc',['strongly_connected_component.cpp','bit_vector.cpp'],'cycle of 66100 nodes cut at 4 places')
HUGE('C26','find',['graph_util.cpp'],'70000 arcs')
HUGE('C36','flags',[],'70000 flags')
BT={'C17/copy':'2 elements with arbitrary keys, copies and moves','C06/many':'300 resets of one query object','C07/saturate':'weights close to the largest value','C09/nolog':'every constructor with and without log function','C09/tiny':'0..2 nodes without arcs',
 'C18/history':'1..5 ids, every history of operations','C18/subset':'0..8 ids, every contained set, one arbitrary operation','C18/large':'14 capacities from 7 to 1025, 3 ids (arbitrary up to 17)',
 'C19/cmp':'0..4 elements with arbitrary 32-bit keys, every function','C19/key':'0..3 elements, 18 numbers of keys from 1 to 80','C19/key0':'no elements, 0..40 keys','C19/large':'20 elements, 2 of them arbitrary, 4 numbers of keys',
 'C20/recognise':'0..4 entries, every 32-bit value','C20/algebra':'0..3 elements, every pair of permutations, arbitrary contents','C20/elements':'permutations of 1..3 ids applied to 0..3 entries','C20/random':'0..9 ids, 4 seeds','C20/inverse_vector':'0..4 values, 0..4 entries','C20/filter':'every filter of up to 5 bits, patterns of up to 600 bits, arbitrary contents','C20/minmax':'0..4 arbitrary 32-bit elements',
 'C22/small':'every set of 0..6 bits at 4 offsets','C22/word':'3 masks of free bits in a word at 3 positions, every local id','C22/word_local':'two arbitrary words','C22/blocks':'7 sizes up to 9000, 7 patterns, 5 free bits','C22/empty':'default constructed',
 'C23/any3':'every graph with 3 nodes and 4 arcs','C23/any4':'every graph with 4 nodes and 4 arcs','C23/outdeg':'5 nodes, one arbitrary head per node','C23/tiny':'0..2 nodes without arcs',
 'C24/any4':'every graph with 4 nodes and 3 edges, source and target sets','C24/topo':'8 topologies, every source and target set','C24/separator':'8 topologies, every cut','C24/inertial':'8 topologies, arbitrary small coordinates',
 'C25/fragment':'every graph with 4 nodes and 3 arcs','C25/dissect':'every graph with 4 nodes and 3 arcs, every separator choice','C25/topo':'13 topologies, separator choices','C25/tiny':'0..2 nodes','C25/inertial':'13 topologies',
 'C26/find':'1..3 nodes, 0..4 arcs, arbitrary heads','C26/find_large':'0..7 arbitrary sorted heads out of 50','C26/paths':'3 nodes, 1..4 arcs, walks of 0..3 arcs','C26/sort':'0..3 arcs, 1..64 nodes on each side'}
def graph_bounds(s):
  d=dict((x.split('=')+[''])[:2] for x in s.get('defs') or []); o=[]; c=s['harness']; w=d.get('WMAX') or {'ch.cpp':'15'}.get(c,'7')
  if 'BLO' in d: o+=['%d graphs of 12..70 nodes and 64..132 arcs (grid, random, wheel, chain, two parts, dense) with fixed weights, %s of them arbitrary in 0..15'%(int(d['BHI'])-int(d['BLO'])+1,d.get('SYMS','2'))]
  elif 'ANY' in d: o+=['every graph with %s nodes and %s arcs, weights 0..%s'%(d['N'],d['M'],w)]
  else: o+=['%d topologies of 3..6 nodes, weights 0..%s'%(int(d.get('THI','12'))-int(d.get('TLO','0'))+1,w)]
  if 'BIGSCALE' in d: o+=['all weights multiplied by '+d['BIGSCALE']]
  if 'ALLPERM' in d: o+=['every order']
  elif c!='c16.cpp': o+=[d.get('ORDERS','5')+' order(s)']
  if 'POPCHOICES' in d: o+=[d['POPCHOICES']+' witness limits']
  if c=='cch.cpp': o+=['filter choices up to '+d['FILTER'] if 'FILTER' in d else 'with and without filter','arcs closed up to '+d.get('CLOSABLE','all')]
  for k,t in (('HIST','operations'),('ROUNDS','rounds'),('PINLEN','pinned nodes'),('CHANGES','changed arcs'),('SRC','source(s)')):
    if k in d: o+=[d[k]+' '+t]
  if 'THREE' in d: o+=['three sources or targets']
  return ', '.join(o)
for _p in PROPS:
  for _s in PROPS[_p]['scenarios']:
    _k=_p+'/'+_s['name']
    if _k in BT: _s['bounds']=BT[_k]
    elif _s['harness'] in('ch.cpp','cch.cpp','c16.cpp') and (not _s.get('bounds') or _s['bounds']==B6): _s['bounds']=graph_bounds(_s)
    elif _p=='C21' and not _s.get('bounds'): _s['bounds']='sizes 0..1536 around word and block limits, arbitrary bits'
