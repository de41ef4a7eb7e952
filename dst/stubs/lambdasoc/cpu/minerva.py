"""Import placeholder: the SoC assembly is not simulated."""


class MinervaCPU:
    pass
