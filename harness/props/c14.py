"""C14: recovery of log pages from their tail copies and fast pages."""
from dfir_ntfs import LogFile
import logfile
from lib import ReadOnlyFile
from props import c13
from props.c13 import setup, job, agree

ID = 'C14'


def runs(tier):
    q = tier == 'quick'
    one = [setup(1, 3, 48, 64, 5, at, 'none', '<<>>') for at in ((2,) if q else (0, 1, 2))]
    two = [setup(2, 3, 48, 64, 5, 2, 'none', '<<>>')]
    chain = [setup(v, 3, 48, 64, 5, 2, 'chain', '<<>>') for v in (1, 2)]
    plain = [setup(v, 3, 48, 64, 5, 1, 'none', '<<>>', 'FALSE') for v in (1, 2)]
    return [job(one, [1968, 6000], 6 if q else 8, 0, ['sync', 'put']),
            job(two, [1968, 6000], 6 if q else 8, 0, ['sync', 'put', 'move'], cases=False),
            job(one + two, [3000], 6 if q else 8, 2, ['sync', 'put', 'astray'], cases=False),
            job(chain, [3960], 6 if q else 8, 1, ['sync', 'put'], cases=False),
            job(plain, [3000], 5, 1, ['sync', 'put'], cases=False)]


def execute(inp):
    stop = c13.execute(inp)
    if stop['st'] != 'ok':
        return stop
    # Leaving the enumeration early leaves no trace either.
    img = logfile.build(inp).image(inp)
    f = ReadOnlyFile(img)
    p = LogFile.LogFileParser(f)
    it = p.parse_ntfs_records() if inp['rec'] else p.parse_ntfs_records(False)
    next(it, None)
    it.close()
    if p.file_object is not f or f.read.__self__._d != img:
        return {'st': 'the view of the log file was not restored after leaving early'}
    return stop


def gen(rng, tier):
    for _ in range(8 if tier == 'quick' else 150):
        x = c13.history(rng, True, tier, True)
        if x:
            yield x
    for _ in range(600 if tier == 'quick' else 10000):
        x = c13.history(rng, True, tier)
        if x:
            yield x


GENERATORS = {'LogWriter': gen}
