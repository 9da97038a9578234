from vdoubles_base import unsupported


def _outputs(o):
    return [] if o is None else [tuple(o)]


def from_list_fn(fn):
    return lambda *a, **k: iter([fn(*a, **k)])


def from_fn(fn):
    return from_list_fn(lambda *a, **k: _outputs(fn(*a, **k)))


def from_gen_fn(fn):
    return lambda *a, **k: ([o] if o is not None else [] for o in fn(*a, **k))


def from_test(test):
    return from_fn(lambda *a, **k: tuple() if test(*a, **k) else None)


__getattr__ = unsupported('pddlstream.language.generator')
