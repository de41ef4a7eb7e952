"""Import placeholder: the SoC assembly is not simulated."""


class SRAMPeripheral:
    pass
