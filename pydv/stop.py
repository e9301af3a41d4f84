"""Continuation sentinel: fetching its opcode ends the run, so one instruction can be verified at a time."""


class StopStep(BaseException):
    pass


class Stop:
    def __init__(self, name):
        self.name = name
        self.args = []

    @property
    def opcode(self):
        raise StopStep(self)

    def __repr__(self):
        return self.name
