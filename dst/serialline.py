"""Models of the other end of an asynchronous serial line."""
from .bench import Violation


class FrameDecoder:
    """Strict receiver: every bit of a frame must last exactly `div` cycles (the last stop bit at
    least that).  feed(level) -> completed data value or None."""
    def __init__(self, div, data_bits=8, parity=None):
        self.div, self.data_bits, self.parity = div, data_bits, parity
        self.nbits = 1 + data_bits + (1 if parity else 0) + 1
        self.k = None
        self.frames = 0

    @property
    def busy(self):
        return self.k is not None

    def abort(self):
        self.k = None

    def set_div(self, div):
        assert self.k is None
        self.div = div

    def feed(self, level):
        if self.k is None:
            if level:
                return None
            self.k, self.bits = 0, []
        n, ph = divmod(self.k, self.div)
        if ph == 0:
            self.bits.append(level)
        elif level != self.bits[-1]:
            raise Violation("bit-length", f"level changes after {ph} of {self.div} cycles of bit {n} of frame {self.frames}")
        if n == 0 and level:
            raise Violation("framing", "start bit not low")
        if n == self.nbits - 1 and not level:
            raise Violation("framing", f"stop bit low in frame {self.frames}")
        self.k += 1
        if self.k < self.nbits * self.div:
            return None
        self.k = None
        self.frames += 1
        v = sum(b << i for i, b in enumerate(self.bits[1:1 + self.data_bits]))
        if self.parity:
            p = self.bits[1 + self.data_bits]
            if p != parity_bit(self.parity, v, self.data_bits):
                raise Violation("parity", f"frame {self.frames - 1}: parity bit {p} for data {v:#x} ({self.parity})")
        return v


def parity_bit(mode, v, bits):
    ones = bin(v & ((1 << bits) - 1)).count("1")
    return {"even": ones & 1, "odd": 1 - (ones & 1), "mark": 1, "space": 0}[mode]


def frame_bits(v, data_bits=8, parity=None, flip_parity=False, stop=1):
    out = [0] + [(v >> i) & 1 for i in range(data_bits)]
    if parity and parity != "none":
        out.append(parity_bit(parity, v, data_bits) ^ (1 if flip_parity else 0))
    return out + [stop]
