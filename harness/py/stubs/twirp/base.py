"""A stand-in for the twirp package (0.0.3), which is not installed here."""


class Endpoint:
    def __init__(self, *, service_name, name, function, input, output):
        self.service_name, self.name, self.function, self.input, self.output = service_name, name, function, input, output
