"""The checks: which harness decides which property, how long, and what the evidence says."""

POOL = {
    'name': 'pool',
    'sources': ['pool.cc'],
    'repo': ['core -stopwatch.cc', 'algorithm/policy'],
}

POOL_REAL = 'thread_pool.h/.cc, join_threads.*, thread_safe_queue.h, function_wrapper.h, parallel_execution_policy.* and libstdc++\'s thread, mutex, condition_variable and future code ran for real'
POOL_STUB = 'pthread synchronisation, futexes, thread creation, clocks and operator new/delete are the simulator\'s'

ALG_REPO = ['core -stopwatch.cc', 'feature/core', 'algorithm/core', 'algorithm/policy']


def alg(name, source, parts, prop_flags=''):
    return {'name': name, 'sources': [(source, 'p%d_' % i, '-DPART=%d %s' % (i, prop_flags)) for i in parts] + ['alg.cc'],
            'repo': ALG_REPO, 'flags': '-fwrapv'}


ALG6 = alg('alg6', 'local.cc', range(1, 20))
ALG7 = alg('alg7', 'select.cc', range(1, 9))
ALG8 = alg('alg8', 'aggregate.cc', range(1, 9))
ALG9 = alg('alg9', 'focal.cc', range(1, 13))


def algx(name, prop, parts):
    return {'name': name, 'sources': [('algx.cc', '%s%d_' % (fam[0].lower(), i), '-DPART=%d -DFAM=%s -DPROP=\\"%s\\"' % (i, fam, prop))
                                      for fam, nrs in parts for i in nrs] + ['alg.cc'],
            'repo': ALG_REPO, 'flags': '-fwrapv'}


ALG10 = algx('alg10', 'C10', [('Real', range(1, 13)), ('Plain', (1, 7, 10))])
ALG11 = algx('alg11', 'C11', [('Real', range(1, 12)), ('Faulty', (1, 3, 5, 7))])
ALG12 = algx('alg12', 'C12', [('Faulty', range(1, 12))])
ALG_REAL = 'the algorithm\'s templates, policies, parallel_execution_policy.*, thread_pool.*, arrays and masks, and libstdc++\'s thread, mutex, condition_variable and future code ran for real'

IO_LIBS = '-rdynamic -lgdal -lnetcdf'
RASTER = {'name': 'raster', 'sources': ['raster.cc'], 'repo': ['core -stopwatch.cc', 'feature/core', 'algorithm/core', 'algorithm/policy', 'io/core', 'io/gdal'],
          'sim': ['simfs.cc'], 'flags': '-I/usr/include/gdal', 'libs': IO_LIBS}
COARDS = {'name': 'coards', 'sources': ['coards.cc'], 'repo': ['core -stopwatch.cc', 'feature/core', 'algorithm/policy', 'io/core', 'io/netcdf/core', 'io/netcdf/coards'],
          'sim': ['simfs.cc'], 'libs': '-rdynamic -lnetcdf'}
HANDLES = {'name': 'handles', 'sources': ['handles.cc'], 'repo': ['core -stopwatch.cc', 'feature/core', 'algorithm/core', 'algorithm/policy', 'io/core', 'io/gdal', 'io/netcdf/core', 'io/netcdf/coards'],
          'sim': ['simfs.cc'], 'flags': '-I/usr/include/gdal', 'libs': IO_LIBS}


def xsd_parsers(*specs):
    """What the project's CMake files generate with xsdcxx."""
    def generate(n, d, gen, inc):
        import os
        from vlib import build
        order = []
        for directory, name, options in specs:
            out = os.path.join(gen, 'fern', directory)
            os.makedirs(out, exist_ok=True)
            base = os.path.join(build.SRC, 'fern', directory, name)
            n.run([os.path.join(out, name + '-pskel.cxx'), os.path.join(out, name + '-pskel.hxx')], [base + '.xsd', base + '.map.in'],
                  "cp %s.map.in %s/%s.map && xsdcxx cxx-parser --std c++11 --xml-parser expat --type-map %s/%s.map --output-dir %s %s %s.xsd"
                  % (base, out, name, out, name, out, options, base))
            order.append(os.path.join(out, name + '-pskel.hxx'))
            n.generated.append(os.path.join(out, name + '-pskel.cxx'))
        return order
    return generate


XMLDOCS = {'name': 'xmldocs', 'sources': ['xmldocs.cc'],
           'repo': ['core -stopwatch.cc', 'feature/core', 'language/ast/core', 'language/ast/xml', 'language/uncertainty', 'language/feature/core', 'language/feature/visitor',
                    'language/operation/core', 'language/operation/xml', 'language/io/uncertml2'],
           'flags': '-include cassert -include string -include vector', 'libs': '-lexpat',
           'generate': xsd_parsers(('language/ast/xml', 'syntax_tree', '--namespace-map http://www.geoneric.eu/fern=fern::language'),
                                   ('language/operation/xml', 'operation', '--namespace-map http://www.geoneric.eu/fern=fern::language'),
                                   ('language/io/uncertml2', 'uncertml2', '--namespace-map http://www.uncertml.org/2.0=uncertml2 --generate-polymorphic'))}


def xsd_trees(*specs):
    """The same for documents read as trees; with operators that print them, for the harness."""
    def generate(n, d, gen, inc):
        import os
        from vlib import build
        order = []
        for directory, name, options in specs:
            out = os.path.join(gen, 'fern', directory)
            os.makedirs(out, exist_ok=True)
            base = os.path.join(build.SRC, 'fern', directory, name)
            n.run([os.path.join(out, name + '.cxx'), os.path.join(out, name + '.hxx')], [base + '.xsd'],
                  'xsdcxx cxx-tree --std c++11 --generate-ostream --output-dir %s %s %s.xsd' % (out, options, base))
            order.append(os.path.join(out, name + '.hxx'))
            n.generated.append(os.path.join(out, name + '.cxx'))
        return order
    return generate


def gpx_flags():
    from vlib import build
    return '-include cassert -include memory -include string -include vector -DSOURCE=\\"%s\\"' % build.SRC


GPX = {'name': 'gpx', 'sources': ['gpx.cc'], 'repo': ['core -stopwatch.cc', 'io/core', 'io/gpx'], 'sim': ['simfs.cc'],
       'flags': gpx_flags(), 'libs': '-rdynamic -lxerces-c -lexpat',
       'generate': xsd_trees(('io/gpx', 'gpx-1.0', '--namespace-map http://www.topografix.com/GPX/1/0=gpx_1_0'),
                             ('io/gpx', 'gpx-1.1', '--namespace-map http://www.topografix.com/GPX/1/1=gpx_1_1'))}
IO_REAL = 'fern\'s reading code, GDAL 3.8.4 and its drivers with libtiff, zlib and zstd, and libc\'s buffered streams ran for real'
IO_STUB = 'the file system calls (open, read, seek, stat, close and their stream forms) are served by the simulated disk; clocks are simulated'

# Per property: harness, options, runs per worker and seconds in the quick and the thorough tier.
CHECKS = {
    'C01': dict(harness=POOL, opts=['prop=C01'], quick=(60000, 70), thorough=(10**9, 600), real=POOL_REAL, stub=POOL_STUB,
                rule='One case is one seeded execution: a pool of 1-5 threads, 1-4 submitting threads with 1-8 tasks each of eight kinds, a schedule and faults. '
                     'Distinct: different sequence of (thread, kind of synchronisation operation) over the whole run; every run executes tasks on at least one worker.'),
    'C02': dict(harness=POOL, opts=['prop=C02'], quick=(60000, 70), thorough=(10**9, 600), real=POOL_REAL, stub=POOL_STUB,
                rule='One case is one seeded execution: a pool of 1-4 threads, bursts and lonely tasks aimed at the polling moments, start order and start latency in simulated time checked from the history. '
                     'Distinct: different sequence of (thread, kind of synchronisation operation).'),
    'C03': dict(harness=POOL, opts=['prop=C03'], quick=(60000, 70), thorough=(10**9, 600), real=POOL_REAL, stub=POOL_STUB,
                rule='One case is one seeded execution: a pool of 1-4 threads with 0-14 tasks destroyed at a seeded moment, directly or through a policy. '
                     'Distinct: different sequence of (thread, kind of synchronisation operation).'),
    'C04': dict(harness=POOL, opts=['prop=C04'], quick=(60000, 70), thorough=(10**9, 600), real=POOL_REAL, stub=POOL_STUB,
                rule='One case is one seeded execution: constructing a pool of 1-8 threads (or of default size) with a failing thread creation or allocation at a seeded position, then again without. '
                     'Distinct: different sequence of (thread, kind of synchronisation operation).'),
    'C05': dict(harness=POOL, opts=['prop=C05'], quick=(80000, 60), thorough=(10**9, 600), real='thread_safe_queue.h and libstdc++\'s mutex and deque code ran for real', stub=POOL_STUB,
                rule='One case is one seeded history of up to 24 concurrent operations of 2-4 threads, checked for linearizability. '
                     'Distinct: different sequence of (thread, kind of synchronisation operation).'),
    'C06': dict(harness=ALG6, opts=['prop=C06'], quick=(200000, 80), thorough=(10**9, 600), real=ALG_REAL, stub=POOL_STUB,
                rule='One case is one seeded execution: 1-3 calls of element-wise operations with seeded types, shapes, values and no-data, on a pool of 1-6 threads, compared with a reference. '
                     'Distinct: different sequence of (thread, kind of synchronisation operation).'),
    'C07': dict(harness=ALG7, opts=['prop=C07'], quick=(200000, 80), thorough=(10**9, 600), real=ALG_REAL, stub=POOL_STUB,
                rule='One case is one seeded execution: 1-3 calls of selection, copying or no-data operations with seeded types, shapes, ranges, offsets, values and no-data, on a pool of 1-6 threads, compared with a reference. '
                     'Distinct: different sequence of (thread, kind of synchronisation operation).'),
    'C09': dict(harness=ALG9, opts=['prop=C09'], quick=(200000, 80), thorough=(10**9, 600), real=ALG_REAL, stub=POOL_STUB,
                rule='One case is one seeded execution: 1-3 focal operations with seeded kernels, policies, types, shapes, values and no-data, on a pool of 1-6 threads, compared with the value of each cell\'s neighbourhood. '
                     'Distinct: different sequence of (thread, kind of synchronisation operation).'),
    'C10': dict(harness=ALG10, opts=['prop=C10'], quick=(200000, 80), thorough=(10**9, 600), real=ALG_REAL, stub=POOL_STUB,
                rule='One case is one seeded execution: 1-3 parallel calls of any algorithm with protected inputs, on a pool of 1-6 threads; every memory access of the compiled code is checked against the happens-before order of the run and the bounds of the arguments. '
                     'Distinct: different sequence of (thread, kind of synchronisation operation).'),
    'C11': dict(harness=ALG11, opts=['prop=C11'], quick=(200000, 80), thorough=(10**9, 600), real=ALG_REAL, stub=POOL_STUB,
                rule='One case is one seeded execution: 2-4 callers with 1-3 calls each of any algorithm, some with the same inputs, some failing, on one pool of 1-4 threads. '
                     'Distinct: different sequence of (thread, kind of synchronisation operation).'),
    'C12': dict(harness=ALG12, opts=['prop=C12'], quick=(200000, 80), thorough=(10**9, 600), real=ALG_REAL, stub=POOL_STUB,
                rule='One case is one seeded execution: a call of any parallel algorithm in which a seeded element throws or a seeded allocation fails, in the caller or in a task, then the same call without failure. '
                     'Distinct: different sequence of (thread, kind of synchronisation operation).'),
    'C13': dict(harness=RASTER, opts=['prop=C13'], quick=(200000, 70), thorough=(10**9, 600), real=IO_REAL, stub=IO_STUB,
                rule='One case is one seeded execution: one or two raster files of seeded format, layout, type, extent, values and no-data value, or damaged ones, read from a failing disk and again after it healed. '
                     'Distinct: different sequence of disk operations and faults.'),
    'C14': dict(harness=COARDS, opts=['prop=C14'], quick=(200000, 70), thorough=(10**9, 600), stub=IO_STUB,
                real='fern\'s NetCDF code, libnetcdf 4.9.2 with HDF5, and libc\'s buffered streams ran for real',
                rule='One case is one seeded execution: one to four reads of seeded variables from one or two NetCDF files of seeded format, conventions and variables, or damaged ones, on a failing disk and again after it healed. '
                     'Distinct: different sequence of disk operations and faults.'),
    'C15': dict(harness=HANDLES, opts=['prop=C15'], quick=(200000, 70), thorough=(10**9, 600), stub=IO_STUB,
                real='fern\'s dataset handles, clients and opening functions, GDAL 3.8.4 with its GTiff and GSBG drivers, libnetcdf 4.9.2 with HDF5, and libc\'s buffered streams ran for real',
                rule='One case is one seeded execution: a history of 2-24 operations on clients and on up to ten dataset handles over up to eight healthy or damaged files on a failing disk. '
                     'Distinct: different sequence of disk operations and faults.'),
    'C16': dict(harness=XMLDOCS, opts=['prop=C16'], quick=(200000, 70), thorough=(10**9, 600),
                real='fern\'s XML parsers and syntax tree vertices, the skeletons xsdcxx generates, the XSD run-time library, libexpat 2.6.1 and libstdc++\'s streams ran for real',
                stub='stream buffers deliver the documents; libexpat\'s allocations, operator new, threads and clocks are the simulator\'s',
                rule='One case is one seeded execution: one to three threads parse one to three documents each, valid, damaged or cut off, of seeded contents, encoding and layout, delivered by seeded streams, and then once more without faults. '
                     'Distinct: different sequence of (thread, kind of synchronisation operation) and faults.'),
    'C17': dict(harness=GPX, opts=['prop=C17'], quick=(200000, 70), thorough=(10**9, 600), stub=IO_STUB,
                real='fern\'s GPX and XML parsing functions, the trees xsdcxx generates, the XSD run-time library, Xerces-C++ 3.2 and libstdc++\'s file streams ran for real',
                rule='One case is one seeded execution: one to three parses of one or two GPX files of seeded version, contents, encoding and layout, or damaged, invalid or cut-off ones, on a failing disk and again after it healed. '
                     'Distinct: different sequence of disk operations and faults.'),
    'C08': dict(harness=ALG8, opts=['prop=C08'], quick=(200000, 80), thorough=(10**9, 600), real=ALG_REAL, stub=POOL_STUB,
                rule='One case is one seeded execution: 1-3 aggregations with seeded types, shapes, values and no-data, on a pool of 1-6 threads, compared with the aggregate of the valid values. '
                     'Distinct: different sequence of (thread, kind of synchronisation operation).'),
}

LEVEL_NOTE = ('Seeded search: a clean batch is evidence, not proof. The real code runs under a simulator that decides every schedule, time and fault; '
              'trusts the simulator\'s model of the pthread, futex, clock and allocation calls, and g++\'s instrumentation of memory accesses.')
NOTES = 'See DESIGN.md. ./check.py replay FILE replays a recorded violation.'
NOT_APPLICABLE = {
    'C18': 'Accumulators are single-threaded value types: a pure function of the values added, with no schedule, clock, fault or I/O to simulate.',
    'C19': 'Partitioning an index range is a pure function of its sizes; its effect on parallel operations is decided under C06 to C09.',
    'C20': 'The symbol table is a single-threaded container without I/O or faults: a pure function of the calls made.',
    'C21': 'Visitors over syntax trees are single-threaded pure functions of the tree.',
    'C22': 'Names, paths and type strings are pure functions of their arguments.',
    'C23': 'Arrays and rasters are single-threaded value types; their concurrent use is decided under C06 to C12.',
}
