from . import DecodeError, Message  # noqa: F401
