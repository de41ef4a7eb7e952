"""Import placeholder: the processor is not simulated."""


class Minerva:
    pass
