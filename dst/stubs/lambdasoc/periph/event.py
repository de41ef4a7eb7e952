from amaranth import Signal
__all__ = ["IRQLine"]


class IRQLine(Signal):
    pass
