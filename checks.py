"""What each check builds and runs (read by check.py)."""

COV = ['-O2', '-fsanitize-coverage=inline-8bit-counters']
ASAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']


def clang(cflags, hflags=('-O2',), ld=(), **kw):
    return dict(cc='clang', cxx='clang++', cflags=list(cflags), hflags=list(hflags), ldflags=list(ld), **kw)


def gcc(cflags, hflags=('-O2',), ld=(), **kw):
    return dict(cc='gcc', cxx='g++', cflags=list(cflags), hflags=list(hflags), ldflags=list(ld), **kw)


CONFIGS = {
    'cov': clang(COV),
    'asan': clang(['-O1', '-fsanitize-coverage=inline-8bit-counters'] + ASAN, ['-O1', '-fsanitize=address'], ['-fsanitize=address,undefined']),
    'gccO0': gcc(['-O0'], ['-O2']),
    'gccO3': gcc(['-O3'], ['-O2']),
    'clangO2': dict(clang(['-O2'], ['-O2']), cxx='g++'),  # same harness code as above: generators must draw the same cases
    'faults': clang(['-O1', '-fsanitize-coverage=inline-8bit-counters'] + ASAN, ['-O1', '-fsanitize=address'], ['-fsanitize=address,undefined'] + ['-Wl,--wrap=' + f for f in ('malloc', 'calloc', 'realloc', 'free', 'pthread_create')],
                    extra='x_alloc.hpp', extra_c=['wrap_alloc.c']),
    'msan': clang(['-O1', '-fsanitize=memory', '-fno-omit-frame-pointer', '-fsanitize-memory-track-origins', '-fsanitize-coverage=inline-8bit-counters'], ['-O1'],
                  ['-fsanitize=memory'] + ['-Wl,--wrap=' + f for f in ('default_settings', 'free_settings', 'new_presolver', 'run_presolver', 'postsolve', 'free_presolver')],
                  hcflags=['-O0', '-fsanitize=memory'], extra='x_msan.hpp', extra_c=['wrap_msan.c']),
    'tsan': clang(['-O1', '-fsanitize=thread', '-fsanitize-coverage=inline-8bit-counters'], ['-O1', '-fsanitize=thread'], ['-fsanitize=thread', '-Wl,--wrap=pthread_create'],
                  hcflags=['-fsanitize=thread'], extra='x_thread.hpp', extra_c=['hook.c', 'wrap_thread.c'], hooks=True),
    'steps': clang(['-O1', '-fno-builtin', '-fsanitize-coverage=trace-pc-guard,inline-8bit-counters'], ld=['-Wl,--wrap=' + f for f in ('memcpy', 'memmove', 'memset', 'realloc', 'qsort')], extra='x_steps.hpp', extra_c=['wrap_steps.c']),
    'inv': clang(COV, hcflags=['-O2', '-DNDEBUG'], extra='x_inv.hpp', extra_c=['hook.c', 'inv.c'], hooks=True),
    'clock': clang(COV, ld=['-Wl,--wrap=clock_gettime'], extra='x_time.hpp', extra_c=['hook.c', 'wrap_clock.c', 'nnz.c'], hooks=True),
}

LPS = ('cases are LPs drawn by a seeded generator (random skeletons with planted reduction gadgets, integer grids, structured '
       'families, degenerate shapes, block compositions up to thousands of rows, rows and columns of hundreds of entries, hash collisions, 66,000 rows and columns) with random settings; (seed, case number) identifies a case; ')


def st(config, mode, quick, thorough, **kw):
    return dict(config=config, mode=mode, count=dict(quick=quick, thorough=thorough), **kw)


def compare_builds(configs, quick, thorough):
    """the same cases in several builds; the digests of every case must agree"""
    def stage(run):
        tables = []
        for cfg in configs:
            before = run.R.cases
            run.stage(st(cfg, 'build', quick, thorough, digest=True))
            t = {}
            for f in run.digest_files(cfg + '-build'):
                b = open(f, 'rb').read()
                for i in range(0, len(b) - 15, 16):
                    t[int.from_bytes(b[i:i + 8], 'little')] = b[i + 8:i + 16]
            tables.append(t)
            if cfg != configs[0]:
                run.R.cases = before  # cases are counted once
        common = set(tables[0])
        for t in tables[1:]:
            common &= set(t)
        bad = sorted(k for k in common if len({t[k] for t in tables}) > 1)
        run.R.counters['cases with digests from every build'] = len(common)
        run.R.counters['distinct digests'] = len({t for t in tables[0].values()})
        for k in bad[:3]:
            dig = ', '.join('%s %s' % (c, t[k].hex()) for c, t in zip(configs, tables))
            run.violation(st(configs[0], 'build', 0, 0), k, 'results-differ-between-builds', dig + '; %d cases differ' % len(bad))
    return stage


CHECKS = {
    'P01': dict(stages=[st('cov', 'verdict', 480000, 9000000)],
                rule=LPS + 'non-trivial: a certified reference verdict exists and the presolver removed something or declared a verdict; distinct by LP hash',
                need={'cases': 20000, 'verdict INFEASIBLE': 100, 'verdict UNBNDORINFEAS': 100}),
    'P02': dict(stages=[st('cov', 'equiv', 480000, 9000000)],
                rule=LPS + 'non-trivial: both the original and the reduced LP were decided by the certifying reference solver and they differ in size; distinct by LP hash',
                need={'cases': 20000, 'compared OPT/OPT': 5000, 'class long': 2000, 'class huge': 20}),
    'P03': dict(stages=[st('cov', 'primal', 320000, 6000000)],
                rule=LPS + 'non-trivial: a reduced LP with feasible points that differs from the original; distinct by LP hash',
                need={'cases': 10000, 'optimal points mapped': 5000, 'feasible points mapped': 5000, 'approximate points mapped': 5000, 'class long': 1000, 'class huge': 10}),
    'P04': dict(stages=[st('cov', 'dual', 400000, 7000000)],
                rule=LPS + 'non-trivial: a reduced LP with an optimum that differs from the original; distinct by LP hash',
                need={'cases': 10000, 'optimal primal-dual pairs mapped': 5000, 'nonzero recovered multipliers': 1000, 'approximate primal-dual pairs mapped': 2000, 'class long': 1000, 'class huge': 10}),
    'P05': dict(stages=[st('cov', 'form', 800000, 15000000)],
                rule=LPS + 'non-trivial: a reduced problem was produced and differs from the original in size; distinct by LP hash',
                need={'cases': 20000, 'reduced problems inspected': 10000}),
    'P06': dict(stages=[st('cov', 'stats', 600000, 12000000), st('clock', 'times', 120000, 2000000)],
                rule=LPS + 'non-trivial: the reduced problem differs from the original in size; distinct by LP hash',
                need={'cases': 20000, 'identity recoveries checked': 500, 'phase times compared: medium': 5000, 'phase times compared: fast': 5000, 'phase times compared: parallel-cols': 2000}),
    'P07': dict(stages=[st('cov', 'inputs', 240000, 4000000)],
                rule=LPS + 'every case places all input arrays in pages that are read-only during construction and inaccessible afterwards; distinct by LP hash',
                need={'cases': 10000, 'inputs made inaccessible after construction': 10000, 'postsolves with protected inputs': 5000}),
    'P08': dict(stages=[st('cov', 'determ', 120000, 2500000)],
                rule=LPS + 'each case runs one LP under three heap fillings and three presolvers in a random call interleaving; distinct by LP and interleaving',
                need={'cases': 5000, 'repeated postsolves': 5000}),
    'P09': dict(stages=[st('asan', 'memory', 200000, 4000000), st('msan', 'uninit', 80000, 1500000)],
                rule=LPS + 'each case runs a random API life cycle on exact-size heap buffers under AddressSanitizer, UndefinedBehaviorSanitizer and LeakSanitizer; distinct by LP hash',
                need={'cases': 10000, 'postsolves': 5000}),
    'P10': dict(stages=[st('faults', 'alloc', 12000, 300000)], level='fault_enumeration',
                rule=LPS + 'for each LP every allocation and the thread creation of default_settings and new_presolver fails alone and together with all later ones, plus random pairs; distinct by LP and fault',
                need={'cases': 1000, 'faults delivered': 5000, 'NULL returned': 5000}),
    'P11': dict(stages=[st('tsan', 'threads', 24000, 500000)],
                rule=LPS + 'each case runs 2-6 caller threads over shared inputs and settings with injected delays under ThreadSanitizer; distinct by the observed order of library calls over instances',
                need={'cases': 2000, 'cases with overlapping library calls': 1000, 'helper threads': 5000}),
    'P12': dict(stages=[st('cov', 'settings', 800000, 15000000)],
                rule=LPS + 'non-trivial: compared with the executable model of the mandatory reductions, or a reduced problem traced back to the original; distinct by LP hash',
                need={'cases': 20000, 'compared with the model of the mandatory reductions': 5000, 'submatrix checks': 3000}),
    'P13': dict(stages=[st('inv', 'inv', 400000, 7000000)],
                rule=LPS + 'the working problem is inspected at every observation point of every run; non-trivial: the presolver removed something; distinct by LP hash',
                need={'cases': 20000, 'points': 200000, 'activities compared': 100000, 'points after dton_eq': 5000, 'points after ston_cols': 5000, 'points after propagation': 5000, 'points after parallel_rows': 5000, 'points after parallel_cols': 5000}),
    'P14': dict(stages=[compare_builds(('gccO0', 'gccO3', 'clangO2'), 480000, 6000000)],
                rule=LPS + 'each case is run in three builds (gcc -O0, gcc -O3, clang -O2) and the bits of verdict, reduced LP and recovered solution are compared; distinct by LP hash',
                need={'cases': 20000, 'cases with digests from every build': 20000}),
    'P15': dict(stages=[st('steps', 'steps', 120000, 1500000)],
                rule=LPS + 'half of the cases are members of 15 scalable adversarial families at sizes N and 2N; executed control-flow edges are counted without any time limit; distinct by LP hash',
                need={'cases': 10000, 'pairs of one family at size N and 2N': 5000}),
    'P16': dict(stages=[st('clock', 'time', 90000, 1500000)],
                rule=LPS + 'each case is run once under a ticking virtual clock and then once per chosen clock read at which the limit strikes; distinct by LP and read',
                need={'cases': 5000, 'runs interrupted by the limit': 10000, 'interrupted runs whose solutions were recovered': 3000}),
    'P17': dict(stages=[st('cov', 'quiet', 400000, 7000000)],
                rule=LPS + 'each case captures stdout and stderr of a silent and of a verbose run; distinct by LP hash',
                need={'cases': 10000, 'silent runs observed': 10000, 'verbose runs observed': 10000}),
    'P18': dict(stages=[st('cov', 'effect', 900000, 20000000)],
                rule=LPS + 'three fifths of the cases are small integer LPs built around rows and columns that qualify for a reduction; non-trivial: some row or column qualified for a rule; distinct by LP hash',
                need={'cases': 20000, 'columns that dual fixing must remove': 5000, 'singleton columns that must go: free': 1000, 'singleton columns that must go: equality': 200, 'singleton columns that must go: dual fix': 200,
                      'singleton columns that must go: active side': 50, 'singleton columns that must go: implied free': 10, 'doubleton equalities that must be substituted': 200, 'reduced problems searched for proportional rows': 2000,
                      'problems with proportional rows': 1000, 'problems whose proportional columns must be merged': 100, 'pairs of proportional columns of which one is dominated': 30, 'rows that no point can violate': 1000,
                      'implied bounds that must show': 5000, 'infinite bounds that must become finite': 1000, 'rows infeasible by their activity': 100}),
}
