"""Import placeholder: the SoC assembly is not simulated."""


class GenericInterruptController:
    pass
