from . import SYMBOLS


class _DB:
    def GetSymbol(self, name):
        return SYMBOLS[name]

    def RegisterMessage(self, m):
        return m


_db = _DB()


def Default():
    return _db
