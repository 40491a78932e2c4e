from . import load_file


class _Pool:
    def AddSerializedFile(self, b):
        return load_file(b)


_pool = _Pool()


def Default():
    return _pool
