"""C23  Parsed data of the datasets, saved and loaded again."""
import datetime
import os
import shutil
import tempfile

import numpy as np
import z3

from dv.harness import contract

B = 'demod.datasets.base_loader'
T = 'demod.datasets.tou_loader'
H = 'demod.utils.parse_helpers'


class Scratch:
    """the datasets folder, in a scratch directory; deletions act only inside"""

    def __init__(self, S):
        self.dir = tempfile.mkdtemp(prefix='dvc23')
        self.S = S
        m = S.mod(B)
        S.stub(m, 'DATASET_PATH', self.dir)
        S.stub(m, 'shutil', self)
        S.stub(m, 'input', lambda *a: self.answer.pop(0))
        self.answer = []

    def rmtree(self, path, *a, **k):
        assert os.path.realpath(str(path)).startswith(os.path.realpath(self.dir) + os.sep), 'deletion outside of the dataset'
        shutil.rmtree(path)

    def __getattr__(self, name):
        raise AttributeError('shutil.' + name + ' has no stand-in')

    def __enter__(self):
        os.mkdir(os.path.join(self.dir, 'Data'))
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir)


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if hasattr(a, 'inds_from'):
        return all(same(getattr(a, k), getattr(b, k)) for k in ('times', 'inds_from', 'inds_to', 'values', 'n_times', 'n_states'))
    if isinstance(a, (datetime.timedelta, str)) or a is None:
        return a == b
    x, y = np.asarray(a), np.asarray(b)
    return x.shape == y.shape and x.dtype.kind == y.dtype.kind and np.array_equal(x, y, equal_nan=x.dtype.kind in 'fc')


class Maker:
    """different data for every parsing"""

    def __init__(self, S):
        self.r, self.n, self.sparse = S.nrng, 0, S.cls('demod.utils.sparse.SparseTPM')

    def f(self, *shape):
        self.n += 1
        a = np.round(self.r.random_sample(shape), 6)
        a.flat[0] = self.n
        return a

    def shape(self):
        return tuple(self.r.randint(1, 4, self.r.randint(1, 4)))

    def arrays(self, *keys):
        return {k: self.f(*self.shape()) for k in keys}

    def labels(self, n):
        return np.array(['state%d' % i for i in range(n)])

    def tpm(self):
        n = self.r.randint(1, 4)
        return self.f(2, n, n), self.labels(n), self.f(n), {'n': int(n)}

    def tpm_duration(self):
        n = self.r.randint(1, 4)
        return self.f(2, n, n), self.f(2, n, 3), self.labels(n), self.f(n), self.f(n, 3), {'n': np.arange(n)}

    def sparse_tpm(self):
        n = self.r.randint(1, 4)
        k = self.r.randint(1, n * n + 1)
        ij = np.sort(self.r.choice(n * n, k, replace=False))
        t = self.r.randint(0, 2, k).astype(np.uint8)
        o = np.argsort(t, kind='stable')
        return (self.sparse(t[o], (ij // n)[o], (ij % n)[o], self.f(k), n_times=3, n_states=n),
                self.labels(n), self.labels(2), self.f(n), {})

    def population(self):
        k = self.r.randint(1, 4)
        return [{'n_residents': i, 'weekday': [6, 7]} if i else {} for i in range(k)], list(self.f(k)), int(self.f(1)[0])

    def appliances(self):
        k = self.r.randint(1, 4)
        return {'type': np.array(['a%d' % i for i in range(k)]), 'power': self.f(k), 'number': np.arange(k), 'name': list('abc'[:k]),
                'more': {'x': self.f(2)}, 'year': 2014}

    def profiles(self):
        return {t: self.arrays(*['p %d' % i for i in range(self.r.randint(1, 3))]) for t in ['oven', 'tv set'][:self.r.randint(1, 3)]}

    def shares(self):
        return {k: float(self.f(1)[0]) for k in ('oven', 'tv')}

    def clearness(self):
        n = self.r.randint(1, 4)
        return self.f(n, n), self.f(n), datetime.timedelta(days=int(self.r.randint(0, 2)), seconds=int(self.r.randint(1, 9000)),
                                                           microseconds=int(self.r.randint(0, 9)))

    def lists(self):
        return {'x': list(self.f(2)), 'country': 'D', 'a': float(self.f(1)[0]), 'b': True}

    def numbers(self):
        return {k: float(self.f(1)[0]) for k in 'abc'}

    def climate(self):
        n = self.r.randint(1, 5)
        return {'datetime': np.datetime64('2014-01-01T00:00:00') + np.arange(n) * np.timedelta64(3600, 's'), 'outside_temperature': self.f(n)}

    def bulbs(self):
        n = self.r.randint(1, 4)
        return self.f(n), self.f(n)

    def config(self):
        return self.f(2, 3)

    def stats(self):
        return float(self.f(1)[0]), float(self.f(1)[0])


# loading method, parsing method, kind of argument, data
LOADS = [
    ('load_tpm', '_parse_tpm', 'activity', 'tpm'),
    ('load_tpm_with_duration', '_parse_tpm_with_duration', 'activity', 'tpm_duration'),
    ('load_sparse_tpm', '_parse_sparse_tpm', 'activity', 'sparse_tpm'),
    ('load_activity_probability_profiles', '_parse_activity_profiles', 'activity', 'numbers'),
    ('load_daily_activity_starts', '_parse_daily_activity_starts', 'activity', 'numbers'),
    ('load_activity_duration', '_parse_activity_duration', 'activity', 'numbers'),
    ('load_activity_probabilities', '_parse_activity_probabilities', 'activity', 'numbers'),
    ('load_population_subgroups', '_parse_population_subgroups', 'name', 'population'),
    ('load_appliance_dict', '_parse_appliance_dict', '', 'appliances'),
    ('load_real_profiles_dict', '_parse_real_profiles_dict', 'name', 'profiles'),
    ('load_appliance_ownership_dict', '_parse_appliance_ownership_dict', 'yearly', 'shares'),
    ('load_yearly_target_switchons', '_parse_yearly_target_switchons', 'yearly', 'shares'),
    ('load_yearly_target_consumption', '_parse_yearly_target_consumption', 'yearly', 'shares'),
    ('load_yearly_target_duration', '_parse_yearly_target_duration', 'yearly', 'shares'),
    ('load_clearness_tpms', '_parse_clearness_tpms', '', 'clearness'),
    ('load_temperatures_arma', '_parse_temperatures_arma', '', 'numbers'),
    ('load_geographic_data', '_parse_geographic_data', '', 'lists'),
    ('load_historical_climate_data', '_parse_historical_climate_data', 'date', 'climate'),
    ('load_fisher_lighting', '_parse_fisher_lighting', '', 'numbers'),
    ('load_crest_lighting', '_parse_crest_lighting', '', 'appliances'),
    ('load_bulbs', '_parse_bulbs', '', 'bulbs'),
    ('load_bulbs_config', '_parse_bulbs_config', 'subgroup', 'config'),
    ('load_installed_bulbs_stats', '_parse_installed_bulbs_stats', 'subgroup', 'stats'),
    ('load_buildings_dict', '_parse_buildings_dict', 'subgroup', 'appliances'),
    ('load_heating_system_dict', '_parse_heating_system_dict', 'subgroup', 'appliances'),
    ('load_thermostat_dict', '_parse_thermostat_dict', 'subgroup', 'appliances'),
]
LOADERS = ['PopulationLoader', 'ApplianceLoader', 'ClimateLoader', 'LightingLoader', 'HeatingLoader']


def loader_class(S, make, calls):
    """a dataset with all the kinds of data"""
    d = {'DATASET_NAME': 'Data', 'step_size': datetime.timedelta(hours=1)}
    for load, parse, arg, kind in LOADS:
        def f(self, *a, load=load, kind=kind):
            if calls and calls[-1] is None:
                calls[-1] = ()
                raise OSError('raw data that cannot be read')
            out = getattr(make, kind)()
            calls.append((load, a, out))
            return out
        d[parse] = f
    return type('Data', (S.cls(T + '.LoaderTOU'),) + tuple(S.cls(B + '.' + c) for c in LOADERS), d)


def public(load, out):
    """what the user gets of what was parsed"""
    if load in ('load_tpm', 'load_tpm_with_duration', 'load_sparse_tpm'):
        return out[:-1]
    return out


def subgroup(S, i):
    d = {}
    for k in ('n_residents', 'weekday', 'quarter', 'household_type'):
        if S.flag('%s of %s' % (k, i)):
            d[k] = S.int('value of %s of %s' % (k, i), 1, 3) if k != 'weekday' else S.choice('days %s' % i, [[1, 2, 3, 4, 5], [6, 7]])
    return d


@contract('C23', [T + '.LoaderTOU', B + '.PopulationLoader', B + '.ApplianceLoader', B + '.ClimateLoader', B + '.LightingLoader',
                  B + '.HeatingLoader', 'demod.utils.sparse.SparseTPM.save', 'demod.utils.sparse.SparseTPM.load'],
          proof=False, quick_runs=250, runs=4000)
def requests(S):
    """any sequence of requests to any loaders of the same dataset"""
    make, calls = Maker(S), []
    with Scratch(S) as fs:
        cls = loader_class(S, make, calls)
        groups = [subgroup(S, i) for i in range(2)]
        asked = {}
        base = S.int('first kind', 0, len(LOADS) - 1)
        for i in range(S.int('requests', 2, 8)):
            version = S.choice('version %d' % i, [None, 'v1', 'v2'])
            act = S.choice('activity %d' % i, ['4_States', 'Sparse9States'])
            load, parse, arg, kind = LOADS[(base + S.int('kind %d' % i, 0, 2)) % len(LOADS)]
            sg = dict(S.choice('subgroup %d' % i, groups))
            key = (version, load)
            if arg == 'activity':
                key += (act, tuple(sorted((k, str(v)) for k, v in sg.items())))
            elif arg == 'subgroup':
                key += (tuple(sorted((k, str(v)) for k, v in sg.items())),)
            elif arg == 'yearly':
                key += (tuple(sorted((k, str(v)) for k, v in sg.items() if k not in ('weekday', 'quarter'))),)
            elif arg == 'name':
                sg = S.choice('name %d' % i, ['full', 'resident', 'full_2'])
                key += (sg,)
            elif arg == 'date':
                sg = datetime.datetime(2014, 1, 1)
            args = (sg,) if arg else ()
            if S.flag('clear before %d' % i):
                if version is None:
                    fs.answer = ['maybe', S.choice('sure %d' % i, ['yes', 'no'])]
                    gone = fs.answer[1] == 'yes'
                else:
                    gone = True
                l = cls(act, version=version, clear_parsed_data=True)
                if gone:
                    asked = {k: v for k, v in asked.items() if version is not None and k[0] != version}
                l = cls(act, version=version)
            else:
                l = cls(act, version=version)
            if key not in asked and S.flag('cannot be parsed %d' % i):
                calls.append(None)
                S.ensure('the failure of the parsing is reported', S.raises(OSError, lambda: getattr(l, load)(*args)) is not None and calls[-1] == ())
            n = len(calls)
            got = getattr(l, load)(*args)
            if key in asked:
                S.ensure('what is saved is not parsed again', len(calls) == n)
                S.ensure('the saved data', same(asked[key], got))
            else:
                S.ensure('what is not saved is parsed once, from the raw data of the request',
                         len(calls) == n + 1 and calls[-1][0] == load and (arg == 'date' or same(list(calls[-1][1]), list(args))))
                asked[key] = public(load, calls[-1][2])
                S.ensure('the parsed data', same(asked[key], got))


@contract('C23', [B + '.DatasetLoader._save_parsed_data', B + '.DatasetLoader._load_parsed_data'], proof=False, quick_runs=200, runs=4000)
def arrays(S):
    """arrays saved in any format, and saved again in another"""
    make = Maker(S)
    with Scratch(S) as fs:
        cls = type('Data', (S.cls(B + '.DatasetLoader'),), {'DATASET_NAME': 'Data'})
        saved = {}
        for i in range(S.int('steps', 1, 6)):
            l = cls(version=S.choice('version %d' % i, [None, 'v1']), allow_pickle=S.flag('pickle %d' % i))
            name = S.choice('name %d' % i, ['x', 'x_2'])
            key = (l.version, name)
            if S.flag('save %d' % i):
                many, npz, compress = S.flag('list %d' % i), S.flag('npz %d' % i), S.flag('compress %d' % i)
                objects = S.flag('objects %d' % i) and not many
                if many:
                    shp = make.shape()
                    v = [make.f(*(shp if not (npz or compress) else make.shape())) for _ in range(S.int('n %d' % i, 1, 3))]
                    v = tuple(v) if S.flag('tuple %d' % i) else v
                else:
                    v = np.array([{'a': 1}, None], dtype=object) if objects else make.f(*make.shape())
                l._save_parsed_data(name, v, npz=npz, compress=compress)
                saved[key] = (v, npz or compress, objects)
            elif key not in saved:
                S.ensure('what is not saved is not found', S.raises(FileNotFoundError, lambda: l._load_parsed_data(name)) is not None)
            else:
                v, npz, objects = saved[key]
                if objects and not l.allow_pickle:
                    S.ensure('objects are not loaded without permission', S.raises(ValueError, lambda: l._load_parsed_data(name)) is not None)
                    continue
                got = l._load_parsed_data(name)
                if objects:
                    S.ensure('the saved objects', list(got[0] if npz else got) == list(v))
                elif npz:
                    S.ensure('the saved arrays', same(list(v) if isinstance(v, (list, tuple)) else [v], list(got)))
                else:
                    S.ensure('the saved array', same(np.asarray(v), got))


@contract('C23', [B + '.DatasetLoader._save_step_size', B + '.DatasetLoader._load_step_size'], proof=False, quick_runs=60, runs=1000)
def step_sizes(S):
    with Scratch(S) as fs:
        l = type('Data', (S.cls(B + '.DatasetLoader'),), {'DATASET_NAME': 'Data'})()
        d = S.timedelta('step', datetime.timedelta(microseconds=1), datetime.timedelta(days=400))
        l._save_step_size('s', d)
        S.ensure('the same step', l._load_step_size('s') == d)


@contract('C23', B + '.ClimateLoader.load_historical_climate_data', proof=False, quick_runs=100, runs=2000)
def climate_from(S):
    """the recorded climate from the requested time"""
    make, calls = Maker(S), []
    with Scratch(S) as fs:
        cls = loader_class(S, make, calls)
        l = cls()
        start = datetime.datetime(2014, 1, 1) + datetime.timedelta(minutes=S.int('minutes', 0, 300))
        if S.flag('utc'):
            start = start.replace(tzinfo=datetime.timezone.utc)
        for i in range(2):
            e = S.raises(ValueError, lambda: l.load_historical_climate_data(start))
            d = calls[0][2]
            t = np.datetime64(start.replace(tzinfo=None))
            S.ensure('parsed once', len(calls) == 1)
            if t > d['datetime'][-1]:
                S.ensure('a start after the end of the data is rejected', e is not None)
            else:
                got = S.result
                k = int(np.sum(d['datetime'] <= t)) - 1
                S.ensure('from the data point at the start or the closest before', same({a: v[k:] for a, v in d.items()}, got))


# ---------------------------------------------------------------- proof: file system with names for all versions, activity types and arguments
class Name:
    """a string made of unknown parts"""

    def __init__(self, t):
        self.t = t

    def __add__(self, o):
        return Name(z3.Concat(self.t, term(o))) if o != '' or isinstance(o, Name) else self

    def __radd__(self, o):
        return Name(z3.Concat(term(o), self.t)) if o != '' else self

    def __getitem__(self, k):
        return '<part of a name>'

    def __str__(self):
        return '<name>'

    __repr__ = __str__

    def __eq__(self, o):
        return NotImplemented

    __hash__ = None


def term(x):
    return x.t if isinstance(x, Name) else z3.StringVal(x)


class Files:
    """file system: names and contents; json, npy and npz files keep what was written"""
    sep = os.sep

    def __init__(self, S, base):
        self.S, self.path = S, self
        self.files, self.dirs = [], [z3.StringVal(base), z3.StringVal(base + '/Data')]
        self.reads, self.writes, self.cleared = [], [], []

    # os, os.path
    def join(self, *parts):
        out = parts[0]
        for p in parts[1:]:
            x = flat(term(p))
            if x and z3.is_string_value(x[0]) and x[0].as_string().startswith('/'):
                out = p         # an absolute path
            else:
                out = out + '/' + p
        return out

    def same(self, p, q):
        return self.S.branch(p == q)

    def find(self, path, log=None):
        p = term(path)
        (self.reads if log is None else log).append(p)
        for k in range(len(self.files) - 1, -1, -1):
            if self.same(self.files[k][0], p):
                return k
        return None

    def isfile(self, path):
        return self.find(path) is not None

    def isdir(self, path):
        p = term(path)
        return any(self.same(d, p) for d in self.dirs)

    def exists(self, path):
        return self.isdir(path) or self.isfile(path)

    def dirname(self, path):
        return os.path.dirname(path)

    def mkdir(self, path, *a):
        p = term(path)
        if self.isdir(path):
            raise FileExistsError('a directory that exists')
        self.dirs.append(p)

    def rmtree(self, path):
        p = term(path)
        self.cleared.append(p)
        inside = lambda q: self.S.branch(z3.Or(q == p, z3.PrefixOf(z3.Concat(p, z3.StringVal('/')), q)))
        self.dirs = [d for d in self.dirs if not inside(d)]
        self.files = [f for f in self.files if not inside(f[0])]

    def remove(self, path):
        k = self.find(path, self.writes)
        if k is None:
            raise self.missing(path)
        del self.files[k]

    def missing(self, path):
        return FileNotFoundError(2, 'No such file', path)

    def put(self, path, v):
        k = self.find(path, self.writes)
        if k is not None:
            del self.files[k]
        self.files.append((term(path), v))

    def get(self, path, kind):
        k = self.find(path)
        if k is None:
            raise self.missing(path)
        if self.files[k][1][0] != kind:
            raise ValueError('not a %s file' % kind)
        return self.files[k][1][1]

    # builtins.open, json
    def open(self, path, mode='r', **k):
        f = Handle(self, path, mode)
        if mode == 'r':
            self.get(path, 'json')
        else:
            self.put(path, ('json', None))
        return f

    def dump(self, v, f, **k):
        assert 'w' in f.mode
        self.put(f.name, ('json', jsonable(v)))

    def load(self, f, **k):
        assert '+' in f.mode or f.mode == 'r'
        return fresh(self.get(f.name, 'json'))


class Handle:
    def __init__(self, fs, name, mode):
        self.fs, self.name, self.mode = fs, name, mode

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def fresh(v):
    """another object of the same contents"""
    if isinstance(v, dict):
        return {k: fresh(x) for k, x in v.items()}
    if isinstance(v, list):
        return [fresh(x) for x in v]
    return v


def jsonable(v):
    from dv.arr import SArr
    if isinstance(v, dict):
        if not all(isinstance(k, str) for k in v):
            raise TypeError('keys must be str')
        return {k: jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, (SArr, np.ndarray)):
        raise TypeError('Object of type ndarray is not JSON serializable')
    return v


class Arrays:
    """numpy, with the files"""

    def __init__(self, shim, fs, S):
        self.shim, self.fs, self.S = shim, fs, S

    def __getattr__(self, k):
        return getattr(self.shim, k)

    def keep(self, v):
        return self.S.copy(self.shim.array(v))

    def save(self, path, v, **k):
        self.fs.put(path + '.npy', ('npy', self.keep(v)))

    def savez(self, path, *a, **k):
        d = {'arr_%d' % i: self.keep(v) for i, v in enumerate(a)}
        d.update({n: self.keep(v) for n, v in k.items()})
        self.fs.put(path + '.npz', ('npz', d))

    savez_compressed = savez

    def load(self, path, **k):
        f = self.fs.find(path)
        if f is None:
            raise self.fs.missing(path)
        kind, v = self.fs.files[f][1]
        if kind == 'npy':
            return self.S.copy(v)
        assert kind == 'npz'
        return {n: self.S.copy(x) for n, x in v.items()}


class Kinds:
    """contents of the files, for all values"""

    def __init__(self, S):
        self.S, self.n = S, 0

    def name(self, k):
        self.n += 1
        return '%s of parse %d' % (k, self.n)

    def f(self, *shape):
        return self.S.arr(self.name('values'), tuple(self.S.dim(self.name('dim'), 1, 3) for _ in shape))

    def real(self):
        return self.S.real(self.name('value'))

    def labels(self):
        return self.S.arr(self.name('labels'), (self.S.dim(self.name('dim'), 1, 3),), 's')

    def tpm(self):
        return self.f(1, 1, 1), self.labels(), self.f(1), {'n': 3}

    def tpm_duration(self):
        return self.f(1, 1, 1), self.f(1, 1, 1), self.labels(), self.f(1), self.f(1, 1), {'n': 3}

    def sparse_tpm(self):
        S = self.S
        n = S.dim(self.name('entries'), 1, 3)
        ix = [S.arr(self.name(k), (n,), 'i', lo=0, hi=1000) for k in ('times', 'from', 'to')]
        v = S.arr(self.name('values'), (n,))
        return (S.cls('demod.utils.sparse.SparseTPM')(*ix, v, n_states=S.int(self.name('states'), 1, 1001), n_times=S.int(self.name('times'), 1, 1001)),
                self.labels(), self.labels(), self.f(1), {})

    def population(self):
        return [{'n_residents': self.S.int(self.name('n'))}, {}], [self.real(), self.real()], self.S.int(self.name('n'))

    def appliances(self):
        return {'type': self.labels(), 'power': self.f(1), 'more': {'x': self.f(1)}, 'year': self.real()}

    def profiles(self):
        return {'oven': {'a': self.f(1), 'b': self.f(1, 1)}, 'tv set': {'c': self.f(1)}}

    def numbers(self):
        return {'oven': self.real(), 'tv': self.real()}

    shares = lists = numbers

    def clearness(self):
        return self.f(1, 1), self.f(1), self.S.timedelta(self.name('step'), datetime.timedelta(0), datetime.timedelta(days=900))

    def bulbs(self):
        return self.f(1), self.f(1)

    def config(self):
        return self.f(1, 1)

    def stats(self):
        return self.real(), self.real()


def equal(S, a, b):
    from dv.arr import SArr
    if isinstance(a, dict):
        return set(a) == set(b) and S.And(*[equal(S, a[k], b[k]) for k in a])
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and S.And(*[equal(S, x, y) for x, y in zip(a, b)])
    if hasattr(a, 'inds_from'):
        return S.And(*[equal(S, getattr(a, k), getattr(b, k)) for k in ('times', 'inds_from', 'inds_to', 'values', 'n_times', 'n_states')])
    if isinstance(a, SArr) or isinstance(b, SArr):
        return S.same(a, b)
    return S.eq(a, b)


RESERVED = ('population', 'climate', 'bulbs', 'heating', 'appliance_ownership', 'appliance_targets')


def plain(t):
    """names without folders"""
    return [z3.Not(z3.Contains(t, '/')), z3.Length(t) > 0]


def attributes(t):
    """the name of a subgroup: empty, or attributes and their values, which are numbers"""
    number = z3.Option(z3.Concat(z3.Full(z3.ReSort(z3.StringSort())), z3.Range('0', '9')))
    return z3.And(z3.Not(z3.Contains(t, '/')), z3.Not(z3.PrefixOf('activity_profiles_', t)), z3.Not(z3.PrefixOf('config_', t)),
                  z3.Not(z3.PrefixOf('loadprofiles_', t)), z3.InRe(t, number))


class Group:
    def __init__(self, name):
        self.name = name


def ghost_loader(S, tag, fs, make, calls, with_version):
    """a loader of any version and activity type"""
    V, A = z3.String('version ' + tag), z3.String('activity ' + tag)
    for t in (V, A):
        for c in plain(t):
            S.ctx.assume(c)
        for e in ('.json', '.npz', '.npy'):
            S.ctx.assume(z3.Not(z3.SuffixOf(e, t)))
        for r in RESERVED:
            S.ctx.assume(t != z3.StringVal(r))
    S.ctx.assume(V != A)
    return loader_class(S, make, calls)(Name(A), version=Name(V) if with_version else None)


def ghosts(S, fs):
    b, t, sp = S.mod(B), S.mod(T), S.mod('demod.utils.sparse')
    for m in (b, t, sp):
        for k, v in (('np', Arrays(S.np, fs, S)), ('os', fs), ('json', fs), ('open', fs.open), ('shutil', fs)):
            S.stub(m, k, v)
        if hasattr(m, 'subgroup_string'):
            S.stub(m, 'subgroup_string', lambda g: g.name)
        if hasattr(m, 'remove_time_attributues'):
            S.stub(m, 'remove_time_attributues', lambda g: g.untimed)
    S.stub(b, 'DATASET_PATH', '/datasets')


def request(S, l, load, arg, group):
    if load == 'load_historical_climate_data':
        return l.load_historical_climate_data(datetime.datetime(2014, 1, 1))
    return getattr(l, load)(*((group.name if arg == 'name' else group,) if arg else ()))


def group(S, tag, arg):
    X = z3.String(('name ' if arg == 'name' else 'subgroup ') + tag)
    g = Group(Name(X))
    if arg == 'name':
        for c in plain(X):
            S.ctx.assume(c)
    else:
        S.ctx.assume(attributes(X))
        Y = z3.String('subgroup without time ' + tag)
        S.ctx.assume(attributes(Y))
        g.untimed = Group(Name(Y))
    return g


PROVED = [x for x in LOADS if x[0] != 'load_historical_climate_data']


def once(load, parse, arg, kind):
    def saved_once(S):
        if not S.symbolic:
            return requests(S)
        fs = Files(S, '/datasets')
        ghosts(S, fs)
        calls = []
        make = Kinds(S)
        v = S.flag('with version')
        l = ghost_loader(S, '', fs, make, calls, v)
        g = group(S, '', arg)
        got = request(S, l, load, arg, g)
        S.ensure('parsed once', len(calls) == 1 and calls[0][0] == load)
        S.ensure('from the raw data of the request', len(calls[0][1]) == (1 if arg else 0) and (
            not arg or calls[0][1][0] is (g.name if arg == 'name' else g)))
        want = public(load, calls[0][2])
        S.ensure('the parsed data', equal(S, want, got))
        if S.flag('another loader'):
            l = ghost_loader(S, '', fs, make, calls, v)
        got = request(S, l, load, arg, g)
        S.ensure('what is saved is not parsed again', len(calls) == 1)
        S.ensure('the saved data', equal(S, want, got))
    saved_once.__name__ = load.replace('load_', '') + '_saved_once'
    return contract('C23', [B + '.DatasetLoader.__init__', (T + '.LoaderTOU.' if hasattr_tou(load) else B + '.') + load])(saved_once)


def hasattr_tou(load):
    return load in [x[0] for x in LOADS[:7]]


for _x in PROVED:
    globals()[_x[0] + '_once'] = once(*_x)


def names(t, k):
    """the same name, of another request"""
    vs = [z3.String(n) for n in ('version ', 'activity ', 'subgroup ', 'subgroup without time ', 'name ')]
    return z3.substitute(t, *[(v, z3.String(str(v) + k)) for v in vs])


def distinct(ts):
    out = {}
    for t in ts:
        t = z3.simplify(t)
        out[t.get_id()] = t
    return list(out.values())


def separate_files(S, part, parts):
    """no request reads a file that another request writes, for all versions, activity types and arguments"""
    if not S.symbolic:
        return requests(S)
    make, used = Kinds(S), []
    for v in (False, True):
        for load, parse, arg, kind in PROVED:
            fs = Files(S, '/datasets')
            ghosts(S, fs)
            calls = []
            g = group(S, '', arg)
            for i in range(2):
                request(S, ghost_loader(S, '', fs, make, calls, v), load, arg, g)
            key = [z3.BoolVal(v), z3.StringVal(load)] + ([z3.String('version ')] if v else [])
            key += {'activity': [z3.String('activity '), z3.String('subgroup ')], 'subgroup': [z3.String('subgroup ')],
                    'name': [z3.String('name ')], 'yearly': [z3.String('subgroup without time ')]}.get(arg, [])
            used.append((load, v, key, distinct(fs.reads), distinct(fs.writes)))
    # only what is assumed of the names matters here
    pre = [c for c in S.ctx.pc if about_names(c)]
    S.ctx.pc[:] = pre + [names(c, 'of the other') for c in pre]
    for a in ('version ', 'activity '):
        for b in ('version ', 'activity '):
            if a != b:
                S.ctx.pc.append(z3.String(a) != z3.String(b + 'of the other'))
    seen = set()
    for load, v, key, reads, _ in used[part::parts]:
        for load2, v2, key2, _, writes in used:
            bad = z3.simplify(z3.Or(*[same_file(r, names(w, 'of the other')) for r in reads for w in writes]))
            if load == load2 and v == v2:
                same = z3.And(*[x == names(y, 'of the other') for x, y in zip(key, key2)])
            else:
                same = z3.BoolVal(False)
            goal = z3.simplify(z3.Implies(bad, same))
            if goal.get_id() not in seen:
                S.ensure('%s reads nothing that %s saves' % (load, load2), goal)
            seen.add(S.ctx.hold(goal).get_id())


def about_names(c):
    todo = [c]
    while todo:
        t = todo.pop()
        if t.sort() == z3.StringSort():
            return True
        todo.extend(t.children())
    return False


def folders(t):
    """the parts of a path between the separators: unknown parts have none"""
    out = [[]]
    for x in flat(t):
        if z3.is_string_value(x):
            a = x.as_string().split('/')
            out[-1].append(a[0])
            out += [[y] for y in a[1:]]
        else:
            out[-1].append(x)
    return out


def flat(t):
    if t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [y for x in t.children() for y in flat(x)]
    assert z3.is_const(t)
    return [t]


def same_file(p, q):
    p, q = folders(p), folders(q)
    if len(p) != len(q):
        return z3.BoolVal(False)
    return z3.And(*[z3.simplify(joined(a) == joined(b)) for a, b in zip(p, q)])


def joined(xs):
    xs = [z3.StringVal(x) if isinstance(x, str) else x for x in xs]
    return xs[0] if len(xs) == 1 else z3.Concat(*xs)


for _k in range(5):
    contract('C23', [B + '.DatasetLoader.__init__'] + [(T + '.LoaderTOU.' if hasattr_tou(x[0]) else B + '.') + x[0] for x in PROVED[_k::5]],
             name='separate_files_%d' % _k, runs=1200)(lambda S, _k=_k: separate_files(S, _k, 5))


@contract('C23', [B + '.DatasetLoader.__init__', B + '.DatasetLoader._clear_parsed_data'], max_paths=2000)
def clearing(S):
    """clearing erases the parsed data of the version (of all versions after confirmation) and nothing else"""
    answers = [S.choice('answer %d' % i, ['yes', 'no', 'maybe']) for i in range(2)] + ['no']
    given = []

    def ask(*a):
        given.append(answers[len(given)])
        return given[-1]
    sure = next(x for x in answers if x != 'maybe')
    if S.symbolic:
        fs = Files(S, '/datasets')
        ghosts(S, fs)
        S.stub(S.mod(B), 'input', ask)
        V = z3.String('version ')
        for c in plain(V):
            S.ctx.assume(c)
        v = S.flag('with version')
        cls = type('Data', (S.cls(B + '.DatasetLoader'),), {'DATASET_NAME': 'Data'})
        cls(version=Name(V)) if v and S.flag('a version that exists') else None
        l = cls(version=Name(V) if v else None, clear_parsed_data=True)
        home = '/datasets/Data/parsed_data' + ('/' if v else '')
        home = z3.Concat(z3.StringVal(home), V) if v else z3.StringVal(home)
        gone = fs.cleared
        S.ensure('without version only after confirmation', len(gone) == (1 if v or sure == 'yes' else 0))
        S.ensure('exactly the parsed data of the version', z3.And(*[g == home for g in gone]))
        S.ensure('a folder for new data', fs.isdir(Name(home)))
    else:
        with Scratch(S) as fs:
            S.stub(S.mod(B), 'input', ask)
            cls = type('Data', (S.cls(B + '.DatasetLoader'),), {'DATASET_NAME': 'Data'})
            for d in ('Other', 'Data/raw_data', 'Data/parsed_data/v1', 'Data/parsed_data/v2', 'Data/parsed_data/v1_2'):
                os.makedirs(os.path.join(fs.dir, d))
                open(os.path.join(fs.dir, d, 'file'), 'w').close()
            open(os.path.join(fs.dir, 'Data/parsed_data/file'), 'w').close()
            here = lambda: sorted(os.path.relpath(os.path.join(d, x), fs.dir) for d, _, y in os.walk(fs.dir) for x in y)
            before = here()
            v = S.choice('version', [None, 'v1', 'v2', 'v3'])
            cls(version=v, clear_parsed_data=True)
            home = 'Data/parsed_data/' + (v + '/' if v else '')
            left = [x for x in before if not x.startswith(home)] if v or sure == 'yes' else before
            S.ensure('exactly the parsed data of the version', here() == left)
            S.ensure('a folder for new data', os.path.isdir(os.path.join(fs.dir, home)))
    S.ensure('asked until it is clear', given == ([] if v else answers[:answers.index(sure) + 1]))
