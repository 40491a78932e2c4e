from . import errors


class TwirpServerException(Exception):
    def __init__(self, *args, code, message, meta=None):
        try:
            self._code = errors.Errors(code)
        except ValueError:
            self._code = errors.Errors.Unknown
        self._message = message
        self._meta = dict(meta or {})
        super().__init__(message)

    @property
    def code(self):
        return self._code

    @property
    def message(self):
        return self._message

    @property
    def meta(self):
        return self._meta

    @staticmethod
    def from_json(d):
        return TwirpServerException(code=d.get("code", errors.Errors.Unknown), message=d.get("msg", ""), meta=d.get("meta", {}))
