from amaranth import Signal


class IRQLine(Signal):
    def __init__(self, shape=None, *, name=None, src_loc_at=0):
        super().__init__(shape, name=name, src_loc_at=1 + src_loc_at)
