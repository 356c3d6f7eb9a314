"""Generated I2S clocking shared by the I2S properties.

wave(case) yields one tuple per system clock cycle: (bit clock, word select, rise, slot, bit, mid)
  rise: this cycle carries a rising edge of the bit clock at the pin
  slot: index of the current word-select slot, bit: index of the current bit within it
  mid : a marker cycle shortly before the rising edge of every bit from the third on (a quiet time for the core)
Slots alternate left, right, left...; word select changes `skew` cycles after the falling edge that starts a slot.
"""


def wave(low, high, slot_len, nslots, first_right, left_level, skew=0, lead=12):
    li = hi = 0
    ws_left = left_level
    level = ws_left ^ 1 if first_right else ws_left
    for _ in range(lead):
        yield (0, level, 0, -1, 0, 0)
    for s in range(nslots):
        right = (s + first_right) & 1
        new = ws_left ^ right
        for b in range(slot_len):
            nl = low[li % len(low)]
            nh = high[hi % len(high)]
            li += 1
            hi += 1
            for k in range(nl):
                if b == 0 and k >= min(skew, nl - 2):
                    level = new
                yield (0, level, 0, s, b, int(b >= 2 and k == nl - 1))
            for k in range(nh):
                yield (1, level, int(k == 0), s, b, 0)
    for k in range(low[0]):
        yield (0, level, 0, nslots - 1, slot_len - 1, 0)


def is_right(slot, first_right):
    return (slot + first_right) & 1
