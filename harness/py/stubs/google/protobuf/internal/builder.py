from .. import Descriptor


def BuildMessageAndEnumDescriptors(fd, g):
    for n, c in fd.messages.items():
        g["_" + n.upper()] = c.DESCRIPTOR
        for en in c.DESCRIPTOR.enums:
            g["_" + n.upper() + "_" + en.upper()] = Descriptor(_options=None, _serialized_options=None)
    for en in fd.enums:
        g["_" + en.upper()] = Descriptor(_options=None, _serialized_options=None)
    for s, d in fd.services.items():
        g["_" + s.upper()] = d


def BuildTopDescriptorsAndMessages(fd, module, g):
    for n, c in fd.messages.items():
        c.__module__ = module
        g[n] = c
    for en, vals in fd.enums.items():
        g.update(vals)


def BuildServices(fd, module, g):
    pass
