import json
import random
import time
import urllib.error
import urllib.request

from . import errors, exceptions

jitter = 0
gate = None  # called before a request is sent
_opener = urllib.request.build_opener(urllib.request.ProxyHandler({}))


class TwirpClient:
    def __init__(self, address, timeout=None):
        self._address = address
        self._timeout = timeout

    def _make_request(self, *args, url, ctx, request, response_obj, **kwargs):
        h = dict(ctx.get_headers())
        h.update(kwargs.get("headers", {}))
        h["Content-Type"] = "application/protobuf"
        if jitter:  # other threads may run here
            time.sleep(random.random() * jitter)
        if gate:
            gate()
        req = urllib.request.Request(self._address + url, data=request.SerializeToString(), headers=h, method="POST")
        try:
            # The default time-out of the real client is left out, the machine may be slow.
            with _opener.open(req, timeout=kwargs.get("timeout") or self._timeout or 120) as r:
                m = response_obj()
                m.ParseFromString(r.read())
                return m
        except urllib.error.HTTPError as e:
            try:
                d = json.loads(e.read())
            except ValueError:
                raise exceptions.TwirpServerException(code=errors.Errors.Unknown, message=str(e))
            raise exceptions.TwirpServerException.from_json(d)
        except TimeoutError as e:
            raise exceptions.TwirpServerException(code=errors.Errors.DeadlineExceeded, message=str(e))
        except urllib.error.URLError as e:
            raise exceptions.TwirpServerException(code=errors.Errors.Unavailable, message=str(e))
