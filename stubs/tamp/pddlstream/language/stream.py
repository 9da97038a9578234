from vdoubles_base import unsupported


class StreamInfo(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


__getattr__ = unsupported('pddlstream.language.stream')
