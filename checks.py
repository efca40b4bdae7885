ASSUMPTIONS = [
    'g++ 13 and clang 18 on x86-64; other targets are not executed',
]

RULE = 'each case is one configuration with one seeded input (or history); a case is distinct if its parameters and inputs hash differently'


def units(src, quick, thorough=None, shards=1, tshards=None):
    def make(tier):
        configs = quick if tier == 'quick' else (thorough or quick)
        n = shards if tier == 'quick' or tshards is None else tshards
        return [dict(src=src, config=c, shard=s) for s in range(n) for c in configs]
    return make


CHECKS = {}


def check(pid, src, quick=('san', 'rel'), thorough=('san', 'rel', 'native', 'clang', 'plain'), shards=1, tshards=None,
          level='exploration', rule=RULE, **kw):
    CHECKS[pid] = dict(units=units(src, quick, thorough, shards, tshards), level=level, rule=rule, src=src,
                       shards=shards, **kw)


check('C01', 'fft.cc', shards=8)
CHECKS['C01']['units'] = lambda tier: (
    [dict(src='fft.cc', config=c, shard=s) for s in range(15, -1, -1) for c in ('san', 'rel', 'native', 'clang', 'plain')]
    if tier == 'thorough' else
    # the index arithmetic is the same in both directions, so the sanitizers see one of them
    [dict(src='fft.cc', config='san', shard=s) for s in (3, 7, 4, 0)] +
    [dict(src='fft.cc', config='rel', shard=s) for s in range(7, -1, -1)])
check('C12', 'lines.cc')
check('C13', 'deque.cc')
check('C14', 'stack.cc')
check('C15', 'quick.cc')
check('C08', 'kahan.cc', quick=('san', 'rel', 'clang'))
check('C09', 'sma.cc', quick=('san', 'rel', 'clang'))
check('C10', 'swa.cc')
check('C11', 'movext.cc')
check('C02', 'halfcomplex.cc', shards=3, tshards=4)
check('C03', 'fdzp.cc', shards=3, tshards=4)
check('C04', 'circle.cc', quick=('san', 'rel', 'clang'))
check('C05', 'atan.cc', quick=('san', 'rel', 'clang'))
check('C06', 'cordic.cc')
check('C07', 'decibel.cc', quick=('san', 'rel', 'clang'))
check('C16', 'robust.cc')
check('C17', 'regression.cc', quick=('san', 'rel', 'clang'))
check('C18', 'complex.cc', quick=('san', 'rel', 'clang'))
check('C19', 'window.cc', quick=('san', 'rel', 'clang'))
check('C20', 'filter.cc', quick=('san', 'rel', 'clang'))
check('C21', 'biquad.cc', quick=('san', 'rel', 'clang'))
check('C22', 'ema.cc', quick=('san', 'rel', 'clang'))
check('C23', 'blockdc.cc', quick=('san', 'rel', 'clang'))
check('C24', 'phasor.cc', quick=('san', 'rel', 'clang'))
check('C25', 'hilbert.cc')
check('C26', 'cdc.cc')
check('C27', 'fmd.cc', quick=('san', 'rel', 'clang'))
check('C28', 'amd.cc', quick=('san', 'rel', 'clang'))
check('C29', 'trigger.cc', quick=('san', 'rel', 'clang'))
check('C30', 'calculus.cc', quick=('san', 'rel', 'clang'))
check('C31', 'natural.cc')
check('C32', 'hermite.cc', quick=('san', 'rel', 'clang'))
check('C33', 'resampler.cc')
check('C34', 'lms.cc')
check('C35', 'wav.cc')
check('C36', 'wavhostile.cc')
check('C37', 'pnm.cc')
check('C38', 'pnmhostile.cc')
check('C40', 'indep.cc', quick=('san', 'plain', 'tsan'), thorough=('san', 'plain', 'tsan', 'vg'))
check('C41', 'helpers.cc', quick=('san', 'rel', 'clang'))
check('C42', 'pipe.cc', quick=('san', 'rel', 'clang'))
check('C43', 'effort.cc')
check('C44', 'long.cc')

# memory and arithmetic errors, wherever they come from
SOURCES = [c['src'] for p, c in sorted(CHECKS.items()) if c['src'] not in ('fft.cc', 'indep.cc')]


def safety(tier):
    units = [dict(src='fft.cc', config='vg', shard=s, quiet=1, tier='tiny40') for s in ((0,) if tier == 'quick' else (0, 3, 4))]
    if tier == 'thorough':
        units += [dict(src='fft.cc', config='san', shard=s, quiet=1) for s in range(16)]
        units += [dict(src='indep.cc', config='vg', shard=0, quiet=1, tier='tiny4')]
    else:
        units += [dict(src='fft.cc', config='san', shard=0, quiet=1)]
    for src in SOURCES:
        units.append(dict(src=src, config='san', shard=0, quiet=1))
        units.append(dict(src=src, config='vg', shard=0, quiet=1, tier='tiny40' if tier == 'quick' else 'tiny4'))
    return units


check('C39', 'all')
CHECKS['C39'].update(units=safety, timeout=420)
