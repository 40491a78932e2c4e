class Context:
    def __init__(self, *args, logger=None, headers=None):
        self._values = {}
        self._headers = dict(headers or {})
        self._response_headers = {}

    def set(self, key, value):
        self._values[key] = value

    def get(self, key):
        return self._values[key]

    def get_headers(self):
        return self._headers

    def set_header(self, key, value):
        self._headers[key] = value

    def get_response_headers(self):
        return self._response_headers

    def set_response_headers(self, h):
        self._response_headers = h
