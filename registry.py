T = ['templates/*.cpp']
SYNC = ['sync/sync_%s.cpp' % x for x in ('event', 'mutex', 'readwritelock', 'semaphore', 'sharedmem', 'util')]
def sync(mode, mc, ops=()):
    return dict(mc=mc, must_ops=['call', 'ret', 'end'] + list(ops),
                runs=[dict(driver='d_sync', spec='Sync', srcs=SYNC, include=['shim_sync.h'], rflags=['-fsanitize=thread'], flags=['-DMODE=%d' % mode], dfs=True, shard_bytes=300000)])
def fil(mode, spec, ops):
    return dict(mc=[spec], must_ops=ops, runs=[dict(driver='d_file', spec=spec, srcs=['utf8/utf8_file_dir.cpp', 'utf8/utf8_util.cpp'], include=['shim_file.h'], flags=['-DMODE=%d' % mode])])
PROPS = {
    'T01': dict(mc=['List'], runs=[dict(driver='d_list', spec='List')], must_ops=['before', 'copy', 'append', 'end']),
    'T02': dict(mc=['Queue'], runs=[dict(driver='d_queue', spec='Queue')], must_ops=['push', 'shift', 'copy', 'append', 'end']),
    'T03': dict(mc=['OrderedHash'], runs=[dict(driver='d_ohash', spec='OrderedHash', srcs=T)], must_ops=['before', 'afternode', 'copy', 'emptydet', 'assign', 'thin', 'many', 'end']),
    'T04': dict(mc=['PackedHash'], runs=[dict(driver='d_phash', spec='PackedHash', srcs=T)], must_ops=['set', 'unset', 'copy', 'optimize', 'setmany', 'thin', 'end']),
    'T05': dict(mc=['Cache'], runs=[dict(driver='d_cache', spec='Cache', srcs=T)], must_ops=['insert', 'find', 'copy', 'end']),
    'T06': dict(mc=['Vector'], runs=[dict(driver='d_vector', spec='Vector')], must_ops=['new', 'copy', 'cmp', 'end']),
    'T07': dict(mc=['Find'], runs=[dict(driver='d_find', spec='Find', flags=['-DMODE=0'], shard_bytes=200000)], must_ops=['find', 'skip']),
    'T08': dict(mc=['Replace'], runs=[dict(driver='d_find', spec='Replace', flags=['-DMODE=1'], shard_bytes=200000)], must_ops=['replace', 'all', 'static', 'out']),
    'T10': dict(mc=['HashFn'], runs=[dict(driver='d_hash', spec='HashFn', srcs=T, shard_bytes=300000)], must_ops=['sip', 'djb', 'cache', 'text']),
    'V01': dict(mc=['IntText'], runs=[dict(driver='d_int', spec='IntText', srcs=['convert/*.cpp'], flags=['-DMODE=0'])], must_ops=['int']),
    'V02': dict(mc=['IntText'], runs=[dict(driver='d_int', spec='IntText', srcs=['convert/*.cpp'], flags=['-DMODE=1'])], must_ops=['size']),
    'T09': dict(mc=['MixedVar'], runs=[dict(driver='d_mvar', spec='MixedVar', flags=['-DMODE=0'], shard_bytes=500000)], must_ops=['setstr', 'append', 'prepend', 'appint', 'size', 'assign', 'itoa', 'end']),
    'S10': dict(mc=['MixedVar'], runs=[dict(driver='d_mvar', spec='MixedVar', srcs=['sync/sync_tls.cpp', 'sync/sync_util.cpp'], flags=['-DMODE=1'], shard_bytes=400000)], must_ops=['setstr', 'append', 'prepend', 'replace', 'size', 'assign', 'end']),
    'S09': dict(mc=['TlsAlloc'], runs=[dict(driver='d_tls', spec='TlsAlloc', srcs=['sync/sync_tls.cpp', 'sync/sync_util.cpp'])], must_ops=['malloc', 'realloc', 'free', 'dup', 'huge', 'hugere', 'bucket', 'look', 'end']),
    'U01': dict(mc=['Utf8'], runs=[dict(driver='d_utf8', spec='Utf8', srcs=['utf8/utf8_util.cpp'], flags=['-DMODE=0'])], must_ops=['to', 'toalloc', 'from', 'fromalloc']),
    'U02': dict(mc=['Utf8'], runs=[dict(driver='d_utf8', spec='Utf8', srcs=['utf8/utf8_util.cpp'], flags=['-DMODE=1'])], must_ops=['strlen', 'find', 'scan', 'ascii', 'comb']),
    'U03': dict(mc=['Utf8Var'], runs=[dict(driver='d_mvar', spec='Utf8Var', srcs=['utf8/utf8_util.cpp'], flags=['-DMODE=2'], shard_bytes=500000)], must_ops=['setu8', 'appu8', 'getu8', 'end']),
    'J01': dict(mc=['Serializer'], runs=[dict(driver='d_json', spec='Serializer', srcs=['json/json_serializer.cpp'])], must_ops=['null', 'bool', 'int', 'double', 'str', 'open', 'close', 'finish', 'raw', 'buffer', 'strsize']),
    'R01': dict(mc=['Csprng'], runs=[dict(driver='d_rng', spec='Csprng', srcs=['security/*.cpp'], include=['shim_rng.h'])], must_ops=['read', 'bytesret', 'int', 'draws', 'ends', 'end']),
    'E01': dict(mc=['AppInfo'], runs=[dict(driver='d_app', spec='AppInfo', srcs=['utf8/utf8_appinfo.cpp', 'utf8/utf8_util.cpp', 'environment/*.cpp'], include=['shim_app.h'])], must_ops=['env', 'system', 'user', 'temp', 'exe', 'exedir', 'ids']),
    'L01': dict(mc=['SharedLib'], runs=[dict(driver='d_lib', spec='SharedLib', libs=[('lib_rec.cpp', 'librec1.so'), ('lib_rec2.cpp', 'librec2.so')])], must_ops=['mod', 'delmod', 'load', 'call', 'callnew', 'once', 'oncenew', 'end']),
    'S01': sync(0, ['Sync'], ['quiet', 'tick']),
    'S02': sync(1, ['Sync'], ['quiet', 'tick']),
    'S03': sync(2, ['Sync'], ['quiet', 'tick']),
    'S04': sync(3, ['Sync'], ['quiet', 'tick']),
    'S05': sync(4, ['Sync'], ['quiet', 'tick']),
    'S06': sync(5, ['Sync'], ['quiet', 'stop']),
    'S07': sync(6, ['Sync']),
    'S08': sync(7, ['Sync'], ['peek', 'poke']),
    'F01': fil(0, 'FileIO', ['open', 'read', 'write', 'seek', 'upd', 'close', 'delete', 'disk', 'bseek', 'bwrite', 'bread', 'end']),
    'F02': fil(1, 'FileIO', ['open', 'read', 'write', 'bcopy', 'bmove', 'bload', 'bpipe', 'end']),
    'F03': fil(2, 'LineIn', ['lopen', 'line', 'lseek', 'lread', 'lclosed']),
    'F04': fil(3, 'Paths', ['abs', 'plat', 'info', 'valid']),
    'F05': fil(4, 'Tree', ['tree', 'mkdir', 'rmdir', 'put', 'symlink', 'copy', 'move', 'delete', 'list', 'readlink', 'realpath', 'stat', 'load', 'chmod', 'owner', 'times', 'cwd', 'hold', 'letgo']),
}
