import importlib


def discharge(pid, tier, repo, build):
    obls, meta = [], {'trusted': [], 'assumptions': [], 'functions': [], 'details': {}, 'by_back_end': {}}
    for eng in ENGINES.get(pid, []):
        m = importlib.import_module(eng)
        o, x = m.discharge(pid, tier, repo, build)
        for k, v in x.items():
            if isinstance(v, list):
                for e in v:
                    if e not in meta.setdefault(k, []):
                        meta[k].append(e)
            elif isinstance(v, dict):
                meta.setdefault(k, {}).update(v)
        obls += o
    for o in obls:
        if o['status'] == 'proved':
            b = o.get('back_end', '?')
            meta['by_back_end'][b] = meta['by_back_end'].get(b, 0) + 1
    return obls, meta


ENGINES = {
    'C15': ['c15'],
    **{'C%02d' % i: ['m.engine'] for i in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 17)},
}
