"""Import placeholder: the SoC assembly is not simulated."""


class CPUSoC:
    pass
