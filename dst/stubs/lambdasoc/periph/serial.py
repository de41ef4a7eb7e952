"""Import placeholder: the SoC assembly is not simulated."""


class AsyncSerialPeripheral:
    pass


class AsyncSerial:
    pass
