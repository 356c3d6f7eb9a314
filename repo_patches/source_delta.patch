From 16bce3bed6a8eeac98c7984508676e1c5cd14ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:55 +0000
Subject: [PATCH 01/59] fix: bits: negative indices count from the most
 significant bit

---
 amlib/utils/bits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/utils/bits.py b/amlib/utils/bits.py
index feda7d8..0b01dc8 100644
--- a/amlib/utils/bits.py
+++ b/amlib/utils/bits.py
@@ -137,7 +137,7 @@ class bits:
     def __getitem__(self, key):
         if isinstance(key, int):
             if key < 0:
-                return (self._int_ >> (self._len_ - key)) & 1
+                return (self._int_ >> (self._len_ + key)) & 1
             else:
                 return (self._int_ >> key) & 1
         if isinstance(key, slice):
-- 
2.43.0


From 1e59eecd31c32a30c02a1570f4575a28a4073780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:46 +0000
Subject: [PATCH 02/59] fix: utils: past_value_of and any_edge_detected
 truncated wide signals to one bit

---
 amlib/utils/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/amlib/utils/__init__.py b/amlib/utils/__init__.py
index 01d14d9..53c852d 100644
--- a/amlib/utils/__init__.py
+++ b/amlib/utils/__init__.py
@@ -3,7 +3,7 @@
 #
 """ Simple utility constructs  """
 
-from amaranth import Signal
+from amaranth import Signal, Value
 
 from .bits            import bits
 from .cdc             import synchronize, stretch_strobe_signal
@@ -32,7 +32,7 @@ def _single_edge_detector(m, signal, *, domain, edge='rising'):
     """ Generates and returns a signal that goes high for a cycle upon a given edge of a given signal. """
 
     # Create a one-cycle delayed version of our input signal.
-    delayed = Signal()
+    delayed = Signal(Value.cast(signal).shape())
     m.d[domain] += delayed.eq(signal)
 
     # And create a signal that detects edges on the relevant signal.
@@ -52,7 +52,7 @@ def past_value_of(m, signal, *, domain):
     """ Generates and returns a signal that represents the value of another signal a cycle ago. """
 
     # Create a one-cycle delayed version of our input signal.
-    delayed = Signal()
+    delayed = Signal(Value.cast(signal).shape())
     m.d[domain] += delayed.eq(signal)
 
     return delayed
-- 
2.43.0


From 41054c35d314f11f0364ada249c20205c1665557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:04 +0000
Subject: [PATCH 03/59] fix: Timer: accept externally provided load and reload
 signals

---
 amlib/utils/timer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amlib/utils/timer.py b/amlib/utils/timer.py
index 8ac9f39..38a2302 100644
--- a/amlib/utils/timer.py
+++ b/amlib/utils/timer.py
@@ -6,8 +6,8 @@ class Timer(Elaboratable):
     def __init__(self, *, width=32, load=None, reload=None, allow_restart=True):
         self._width = width
         self._allow_restart = allow_restart
-        self.load_in     = Signal(width, name="load")   if load   == None else load
-        self.reload_in   = Signal(width, name="reload") if reload == None else reload
+        self.load_in     = Signal(width, name="load")   if load   is None else load
+        self.reload_in   = Signal(width, name="reload") if reload is None else reload
         self.counter_out = Signal(width)
         self.start       = Signal()
         self.done        = Signal()
-- 
2.43.0


From d13c5a6fd0420d20e72337371775b9557da050e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 04/59] fix: Timer: a load or reload of one must expire after
 one cycle

---
 amlib/utils/timer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/amlib/utils/timer.py b/amlib/utils/timer.py
index 38a2302..6e7a9db 100644
--- a/amlib/utils/timer.py
+++ b/amlib/utils/timer.py
@@ -32,6 +32,8 @@ class Timer(Elaboratable):
                     # load is one-based, but we stop at zero
                     m.d.sync += counter.eq(counter - 1)
                     m.next = "RUNNING"
+                    with m.If(counter == 1):
+                        m.next = "DONE"
 
             with m.State("RUNNING"):
                 m.d.sync += counter.eq(counter - 1)
@@ -43,7 +45,8 @@ class Timer(Elaboratable):
                     # we want the next done to appear
                     # exactly 'reload_in' cycles later
                     m.d.sync += counter.eq(self.reload_in - 1)
-                    m.next = "RUNNING"
+                    with m.If(self.reload_in > 1):
+                        m.next = "RUNNING"
                 if self._allow_restart:
                     with m.Else():
                         m.next = "IDLE"
-- 
2.43.0


From a2ed8cff41f6c53ff3edf84677062cf653c88402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:32 +0000
Subject: [PATCH 05/59] fix: TransactionalizedFIFO: present the right item in
 the cycle after a read discard

---
 amlib/utils/fifo.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/amlib/utils/fifo.py b/amlib/utils/fifo.py
index d82730f..4c52f78 100644
--- a/amlib/utils/fifo.py
+++ b/amlib/utils/fifo.py
@@ -179,8 +179,11 @@ class TransactionalizedFIFO(Elaboratable):
 
         # Our memory always takes a single cycle to provide its read output; so we'll update its address
         # "one cycle in advance". Accordingly, if we're about to advance the FIFO, we'll use the next read
-        # address as our input. If we're not, we'll use the current one.
-        with m.If(self.read_en & ~self.empty):
+        # address as our input. If we're not, we'll use the current one. If we're rewinding, we need to fetch
+        # the item we're rewinding to.
+        with m.If(self.read_discard):
+            m.d.comb += read_port.addr.eq(committed_read_pointer)
+        with m.Elif(self.read_en & ~self.empty):
             m.d.comb += read_port.addr.eq(next_read_pointer)
         with m.Else():
             m.d.comb += read_port.addr.eq(current_read_pointer)
-- 
2.43.0


From 743fbebcf9d6a72c7e62f9dba8a845dfb5bcfd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:22 +0000
Subject: [PATCH 06/59] fix: ConstantStreamGenerator: first must follow the
 start position applied at start

---
 amlib/stream/generator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/amlib/stream/generator.py b/amlib/stream/generator.py
index 7fc19b6..de69d56 100644
--- a/amlib/stream/generator.py
+++ b/amlib/stream/generator.py
@@ -162,7 +162,7 @@ class ConstantStreamGenerator(Elaboratable):
             bytes_per_word = 0
 
         # Track when we're on the first and last packet.
-        on_first_packet = position_in_stream == self.start_position
+        on_first_packet = Signal()
         on_last_packet  = \
             (position_in_stream          == (data_length - 1)) | \
             (bytes_sent + bytes_per_word >= self.max_length)
@@ -198,6 +198,7 @@ class ConstantStreamGenerator(Elaboratable):
                 # Keep ourselves at the beginning of the stream, but don't yet count.
                 m.d.sync += [
                     position_in_stream  .eq(start_position),
+                    on_first_packet     .eq(1),
                     bytes_sent          .eq(0)
                 ]
                 m.d.comb += [
@@ -288,6 +289,7 @@ class ConstantStreamGenerator(Elaboratable):
 
                 # If the current data byte is accepted, move past it.
                 with m.If(self.stream.ready):
+                    m.d.sync += on_first_packet.eq(0)
 
                     # If there's still data left to transmit, move forward.
                     with m.If(~on_last_packet):
-- 
2.43.0


From 6eff44d23a9be3c49690fb74b5c96ab20ade4707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:40 +0000
Subject: [PATCH 07/59] fix: ConstantStreamGenerator: clamp the start position
 to the number of words, not bytes

---
 amlib/stream/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/stream/generator.py b/amlib/stream/generator.py
index de69d56..c9825a0 100644
--- a/amlib/stream/generator.py
+++ b/amlib/stream/generator.py
@@ -173,7 +173,7 @@ class ConstantStreamGenerator(Elaboratable):
         start_position = Signal.like(position_in_stream)
 
         # If our starting position is greater than our data length, use our data length.
-        with m.If(self.start_position >= self._data_length):
+        with m.If(self.start_position >= data_length):
             m.d.comb += start_position.eq(data_length - 1)
 
         # Otherwise, use our starting position.
-- 
2.43.0


From 0b17b8f8dceda8f5cdaaabf07d6d36486a939bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:35 +0000
Subject: [PATCH 08/59] fix: PacketListStreamer: next position must be able to
 hold the total length

---
 amlib/stream/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/stream/generator.py b/amlib/stream/generator.py
index c9825a0..876d3d7 100644
--- a/amlib/stream/generator.py
+++ b/amlib/stream/generator.py
@@ -743,7 +743,7 @@ class PacketListStreamer(Elaboratable):
         total_no_bytes = len(packets_flattened)
 
         position           = Signal(range(total_no_bytes))
-        next_position      = Signal.like(position)
+        next_position      = Signal(range(total_no_bytes + 1))
         current_packet     = Signal(range(no_packets))
         current_packet_len = Signal(max_length_width)
 
-- 
2.43.0


From bf1bda68f2f91dd679d5ae3dd38e09c8a9ebef20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:44 +0000
Subject: [PATCH 09/59] fix: PacketListStreamer: honour data_width for the
 packet contents

---
 amlib/stream/generator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/amlib/stream/generator.py b/amlib/stream/generator.py
index 876d3d7..e614b17 100644
--- a/amlib/stream/generator.py
+++ b/amlib/stream/generator.py
@@ -734,8 +734,11 @@ class PacketListStreamer(Elaboratable):
         max_length_width = bits_for(max(packet_lengths))
         packets_flattened = [words for packet in self.packets for words in packet]
 
+        # the generator measures its maximum length in bytes
+        bytes_per_word   = (self._data_width + 7) // 8
         m.submodules.generator = generator = \
-            ConstantStreamGenerator(packets_flattened, max_length_width=max_length_width)
+            ConstantStreamGenerator(packets_flattened, data_width=self._data_width,
+                                    max_length_width=bits_for(max(packet_lengths) * bytes_per_word))
 
         rom = Memory(width=max_length_width, depth=no_packets, init=packet_lengths)
         m.submodules.packet_lengths_rom = packet_lengths_rom = rom.read_port(transparent=False)
@@ -753,7 +756,7 @@ class PacketListStreamer(Elaboratable):
             generator.start_position.eq(position),
             packet_lengths_rom.addr.eq(current_packet),
             current_packet_len.eq(packet_lengths_rom.data),
-            generator.max_length.eq(current_packet_len),
+            generator.max_length.eq(current_packet_len * bytes_per_word),
             next_position.eq(position + current_packet_len),
             self.done.eq(0)
         ]
-- 
2.43.0


From 9f4f703057977c566df20d28c659711e54846d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:31 +0000
Subject: [PATCH 10/59] fix: StreamArbiter: partially valid words must not
 interrupt a burst

---
 amlib/stream/arbiter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/stream/arbiter.py b/amlib/stream/arbiter.py
index c740349..2acf825 100644
--- a/amlib/stream/arbiter.py
+++ b/amlib/stream/arbiter.py
@@ -132,7 +132,7 @@ class StreamArbiter(Elaboratable):
         #
 
         # Only change which stream we're working with when the active stream stops transmitting.
-        with m.If(~active_stream.valid):
+        with m.If(~active_stream.valid.any()):
 
             # Assume we're idle until proven otherwise.
             m.d.comb += self.idle.eq(1)
-- 
2.43.0


From e3ed09d8dac887a6131da5426a0d3a80841c1150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 11/59] fix: StreamInterface: extra fields can be omitted by
 name

---
 amlib/stream/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amlib/stream/__init__.py b/amlib/stream/__init__.py
index 2df6991..aff5cdf 100644
--- a/amlib/stream/__init__.py
+++ b/amlib/stream/__init__.py
@@ -70,7 +70,8 @@ class StreamInterface(Record):
     def attach(self, interface, omit=None):
         # Create lists of fields to be copied -to- the interface (RHS fields),
         # and lists of fields to be copied -from- the interface (LHS fields).
-        rhs_fields = ['valid', 'first', 'last', 'payload', *self._extra_fields]
+        extra_fields = [name for name, *_ in self._extra_fields]
+        rhs_fields = ['valid', 'first', 'last', 'payload', *extra_fields]
         lhs_fields = ['ready']
         assignments = []
 
-- 
2.43.0


From b13ffc6566ef8d9ba6335ab02e4b63bc0670293f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:41 +0000
Subject: [PATCH 12/59] fix: I2CInitiator: ignore requests while busy, as
 documented

---
 amlib/io/i2c.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/amlib/io/i2c.py b/amlib/io/i2c.py
index 3061964..b470177 100644
--- a/amlib/io/i2c.py
+++ b/amlib/io/i2c.py
@@ -166,7 +166,10 @@ class I2CInitiator(Module):
 
         self.fsm.act("IDLE",
             NextValue(self.busy, 1),
-            If(self.start,
+            If(self.busy,
+                # requests are only accepted while we are not busy
+                NextValue(self.busy, 0)
+            ).Elif(self.start,
                 If(bus.scl_i & bus.sda_i,
                     NextState("START-SDA-L")
                 ).Elif(~bus.scl_i,
-- 
2.43.0


From c281b89ecf114f42c804b38dcb2c56e4e4aeea79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:00 +0000
Subject: [PATCH 13/59] fix: I2CStreamTransmitter: wait for the producer
 instead of sending stale words

---
 amlib/stream/i2c.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/amlib/stream/i2c.py b/amlib/stream/i2c.py
index 5bf260b..fdc503f 100644
--- a/amlib/stream/i2c.py
+++ b/amlib/stream/i2c.py
@@ -53,15 +53,13 @@ class I2CStreamTransmitter(Elaboratable):
                     m.next = "STREAMING"
 
             with m.State("STREAMING"):
-                with m.If(~i2c.busy):
+                with m.If(~i2c.busy & in_fifo.r_rdy):
                     m.d.comb += [
                         i2c.data_i.eq(payload),
                         i2c.write.eq(1),
+                        in_fifo.r_en.eq(1),
                     ]
 
-                    with m.If(in_fifo.r_rdy):
-                        m.d.comb += in_fifo.r_en.eq(1)
-
                     with m.If(last):
                         m.next = "STOP"
 
-- 
2.43.0


From 959d5bf4327169785c2393c6a41ae1ab45c1c904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:17 +0000
Subject: [PATCH 14/59] fix: I2S: start with a complete left slot instead of in
 the middle of one

---
 amlib/io/i2s.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amlib/io/i2s.py b/amlib/io/i2s.py
index 4a2a230..83434e9 100644
--- a/amlib/io/i2s.py
+++ b/amlib/io/i2s.py
@@ -159,7 +159,7 @@ class I2STransmitter(Elaboratable):
         with m.FSM(reset="IDLE"):
             with m.State("IDLE"):
                 with m.If(self.enable_in):
-                    with m.If(bit_clock_rose & left_channel):
+                    with m.If(bit_clock_rose & right_channel):
                         m.next = "WAIT_SYNC"
 
             with m.State("WAIT_SYNC"):
@@ -395,7 +395,7 @@ class I2SReceiver(Elaboratable):
             with m.State("IDLE"):
                 m.d.sync += rx_buf.eq(0)
                 with m.If(self.enable_in):
-                    with m.If(bit_clock_rose & left_channel):
+                    with m.If(bit_clock_rose & right_channel):
                         m.d.sync += rx_delay_cnt.eq(rx_delay_val)
                         m.next = "WAIT_SYNC"
 
-- 
2.43.0


From 62a03ea0a644270c71c8d122fce996ae65629d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:29 +0000
Subject: [PATCH 15/59] fix: I2STransmitter: the first sample after enabling
 must match its channel like any other

---
 amlib/io/i2s.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/amlib/io/i2s.py b/amlib/io/i2s.py
index 83434e9..6f48a5f 100644
--- a/amlib/io/i2s.py
+++ b/amlib/io/i2s.py
@@ -163,13 +163,22 @@ class I2STransmitter(Elaboratable):
                         m.next = "WAIT_SYNC"
 
             with m.State("WAIT_SYNC"):
-                with m.If(bit_clock_rose & left_channel):
-                    m.next = "LEFT_FALL"
+                with m.If(~self.enable_in):
+                    m.next = "IDLE"
+                with m.Elif(bit_clock_rose & left_channel):
                     m.d.sync += [
                         tx_cnt.eq(sample_width),
-                        tx_shifter.eq(Cat(tx_fifo.r_data, offset))
+                        tx_shifter.eq(0),
                     ]
-                    m.d.comb += tx_fifo.r_en.eq(1),
+                    with m.If(tx_fifo.r_rdy):
+                        with m.If(first_flag):
+                            m.d.sync += tx_shifter.eq(Cat(tx_fifo.r_data, offset))
+                            m.d.comb += tx_fifo.r_en.eq(1)
+                        with m.Else():
+                            m.d.comb += self.mismatch_out.eq(1)
+                    with m.Else():
+                        m.d.comb += self.underflow_out.eq(1)
+                    m.next = "LEFT_FALL"
 
             # sync should be sampled on rising edge, but data should change on falling edge
             with m.State("LEFT_FALL"):
-- 
2.43.0


From f4a85106001281929bee175f5d340cac2c1793e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:29 +0000
Subject: [PATCH 16/59] fix: I2S: samples of up to 16 bits lost their left
 channel, streams carry one sample per word

---
 amlib/io/i2s.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/amlib/io/i2s.py b/amlib/io/i2s.py
index 6f48a5f..22e8170 100644
--- a/amlib/io/i2s.py
+++ b/amlib/io/i2s.py
@@ -106,7 +106,8 @@ class I2STransmitter(Elaboratable):
         frame_format = self._frame_format
 
         fifo_data_width = sample_width
-        concatenate_channels = True
+        # our streams carry one sample per word
+        concatenate_channels = False
         if concatenate_channels:
             if sample_width <= 16:
                 fifo_data_width = sample_width * 2
@@ -351,7 +352,8 @@ class I2SReceiver(Elaboratable):
         frame_format = self._frame_format
 
         fifo_data_width = sample_width
-        concatenate_channels = True
+        # our streams carry one sample per word
+        concatenate_channels = False
         if concatenate_channels:
             if sample_width <= 16:
                 fifo_data_width = sample_width * 2
-- 
2.43.0


From 2fff1f8401c05eacc87bac5872c6555dfb79cfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:44 +0000
Subject: [PATCH 17/59] fix: I2S: bit counters must be able to hold the sample
 width for power-of-two widths

---
 amlib/io/i2s.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/amlib/io/i2s.py b/amlib/io/i2s.py
index 22e8170..bd6eed6 100644
--- a/amlib/io/i2s.py
+++ b/amlib/io/i2s.py
@@ -6,7 +6,6 @@
 #   Copyright (c) 2021 Hans Baier <hansfbaier@gmail.com>
 # SPDX-License-Identifier: BSD-2-Clause
 
-import math
 from enum import Enum
 
 from amaranth import *
@@ -119,8 +118,7 @@ class I2STransmitter(Elaboratable):
         sample_width = sample_width + 1    if frame_format == I2S_FORMAT.STANDARD else sample_width
         offset       = [0]                 if frame_format == I2S_FORMAT.STANDARD else []
 
-        tx_cnt_width = math.ceil(math.log(fifo_data_width,2))
-        tx_cnt = Signal(tx_cnt_width)
+        tx_cnt = Signal(range(sample_width + 1))
         tx_shifter = Signal(tx_buf_width - 1)
         sample_msb = fifo_data_width - 1
 
@@ -361,8 +359,7 @@ class I2SReceiver(Elaboratable):
                 concatenate_channels = False
                 print("I2S warning: sample width greater than 16 bits. your channels can't be glued")
 
-        rx_cnt_width = math.ceil(math.log(fifo_data_width, 2))
-        rx_cnt = Signal(rx_cnt_width)
+        rx_cnt = Signal(range(sample_width + 1))
 
         bit_clock  = Signal()
         word_clock = Signal()
-- 
2.43.0


From 7a7e8acfe9058e875585229af3b215977af9d453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:39 +0000
Subject: [PATCH 18/59] fix: I2STransmitter: slots exactly as long as the
 sample made every sample slip by one bit

---
 amlib/io/i2s.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/amlib/io/i2s.py b/amlib/io/i2s.py
index bd6eed6..d0350d8 100644
--- a/amlib/io/i2s.py
+++ b/amlib/io/i2s.py
@@ -121,6 +121,9 @@ class I2STransmitter(Elaboratable):
         tx_cnt = Signal(range(sample_width + 1))
         tx_shifter = Signal(tx_buf_width - 1)
         sample_msb = fifo_data_width - 1
+        # a slot may be exactly as long as the sample: then the next one
+        # starts with the last bit, and there is no time for a padding bit
+        last_cnt   = 1                     if frame_format == I2S_FORMAT.STANDARD else 0
 
         bit_clock  = Signal()
         word_clock = Signal()
@@ -215,7 +218,7 @@ class I2STransmitter(Elaboratable):
                         m.next = "IDLE"
                     with m.Else():
                         with m.If(bit_clock_rose):
-                            with m.If((tx_cnt == 0)):
+                            with m.If((tx_cnt == 0) | ((tx_cnt == last_cnt) & right_channel)):
                                 with m.If(right_channel):
                                     m.d.sync += tx_cnt.eq(sample_width),
                                     with m.If(tx_fifo.r_rdy):
@@ -256,7 +259,7 @@ class I2STransmitter(Elaboratable):
                     m.next = "IDLE"
                 with m.Else():
                     with m.If(bit_clock_rose):
-                        with m.If((tx_cnt == 0) & left_channel):
+                        with m.If((tx_cnt <= last_cnt) & left_channel):
                             m.d.sync += tx_cnt.eq(sample_width)
                             with m.If(tx_fifo.r_rdy):
                                 # in RIGHT_WAIT, we wait for the left channel to start
-- 
2.43.0


From d5f45819c2343062a88c6944809cb6ed03139470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:23 +0000
Subject: [PATCH 19/59] fix: I2SReceiver: slots exactly as long as the sample
 made every sample slip by one bit

---
 amlib/io/i2s.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/amlib/io/i2s.py b/amlib/io/i2s.py
index d0350d8..b838d8d 100644
--- a/amlib/io/i2s.py
+++ b/amlib/io/i2s.py
@@ -430,6 +430,10 @@ class I2SReceiver(Elaboratable):
                         rx_buf.eq(Cat(self.serial_data_in, rx_buf[:-1])),
                         rx_cnt.eq(rx_cnt - 1),
                     ]
+                    # a slot may be exactly as long as the sample: then its
+                    # last bit is already the delay bit of the next slot
+                    with m.If((rx_cnt == 1) & right_channel):
+                        m.d.sync += rx_delay_cnt.eq(0)
                     m.next = "LEFT_WAIT"
 
             if concatenate_channels:
@@ -485,6 +489,10 @@ class I2SReceiver(Elaboratable):
                         rx_buf.eq(Cat(self.serial_data_in, rx_buf[:-1])),
                         rx_cnt.eq(rx_cnt - 1),
                     ]
+                    # a slot may be exactly as long as the sample: then its
+                    # last bit is already the delay bit of the next slot
+                    with m.If((rx_cnt == 1) & left_channel):
+                        m.d.sync += rx_delay_cnt.eq(0)
                     m.next = "RIGHT_WAIT"
 
             with m.State("RIGHT_WAIT"):
-- 
2.43.0


From baa92243ec69a2909376752ff8c63f63d99a1192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:21 +0000
Subject: [PATCH 20/59] fix: SPIDeviceInterface: count bits anew for every
 word, for word sizes other than powers of two

---
 amlib/io/spi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amlib/io/spi.py b/amlib/io/spi.py
index 3345ebb..9edcd00 100644
--- a/amlib/io/spi.py
+++ b/amlib/io/spi.py
@@ -334,7 +334,8 @@ class SPIDeviceInterface(Elaboratable):
                 with m.If(bit_count + 1 == self.word_size):
                     m.d.sync += [
                         self.word_accepted .eq(1),
-                        current_tx         .eq(self.word_out)
+                        current_tx         .eq(self.word_out),
+                        bit_count          .eq(0)
                     ]
 
             # Shift out data on each output edge.
-- 
2.43.0


From 534710755e59bf27794047bbb3e41ce0281881e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:37 +0000
Subject: [PATCH 21/59] fix: SPIControllerInterface: clock phase 0 skipped the
 first bit of every transfer

---
 amlib/io/spi.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/amlib/io/spi.py b/amlib/io/spi.py
index 9edcd00..ac90565 100644
--- a/amlib/io/spi.py
+++ b/amlib/io/spi.py
@@ -128,13 +128,20 @@ class SPIControllerInterface(Elaboratable):
             self.word_complete.eq(spi_device.word_complete),
         ]
 
-        clock_edge = Rose(sck_divider.clock_out, clocks=self.divisor//8, domain="sync") if not self.clock_polarity else \
-                     Fell(sck_divider.clock_out, clocks=self.divisor//8, domain="sync")
+        if self.clock_phase == 1:
+            clock_edge = Rose(sck_divider.clock_out, clocks=self.divisor//8, domain="sync") if not self.clock_polarity else \
+                         Fell(sck_divider.clock_out, clocks=self.divisor//8, domain="sync")
+        else:
+            # the chip must be selected before the first leading edge,
+            # because the first bit is already sampled there
+            clock_edge = Fell(sck_divider.clock_out, domain="sync") if not self.clock_polarity else \
+                         Rose(sck_divider.clock_out, domain="sync")
 
         with m.FSM() as fsm:
-            m.d.comb += sck.eq(Mux(fsm.ongoing("TRANSFER"), sck_divider.clock_out, self.clock_polarity))
-            cs_domain = m.d.comb if self.clock_phase == 1 else m.d.sync
-            cs_domain += cs.eq(Mux(fsm.ongoing("TRANSFER"), cs_active, cs_inactive))
+            m.d.comb += [
+                sck.eq(Mux(fsm.ongoing("TRANSFER"), sck_divider.clock_out, self.clock_polarity)),
+                cs.eq(Mux(fsm.ongoing("TRANSFER"), cs_active, cs_inactive)),
+            ]
 
             with m.State("IDLE"):
                 m.d.sync += sck_divider.clock_enable_in.eq(0)
-- 
2.43.0


From 0caf4f2bd4b567a15e75647dae42096a92d35ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:37 +0000
Subject: [PATCH 22/59] fix: SPI: connect_to_resource referred to a bus that
 does not exist, and reversed directions

---
 amlib/io/spi.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/amlib/io/spi.py b/amlib/io/spi.py
index ac90565..6b3e513 100644
--- a/amlib/io/spi.py
+++ b/amlib/io/spi.py
@@ -88,10 +88,10 @@ class SPIControllerInterface(Elaboratable):
 
     def connect_to_resource(self, spi_resource):
         return [
-            spi_resource.copi .eq(self.spi_bus_out.sdo),
-            spi_resource.cipo .eq(self.spi_bus_out.sdi),
-            spi_resource.clk  .eq(self.spi_bus_out.sck),
-            spi_resource.cs   .eq(self.spi_bus_out.cs if not self.cs_idles_high else ~self.spi_bus_out.cs),
+            spi_resource.copi .eq(self.spi.sdo),
+            self.spi.sdi      .eq(spi_resource.cipo),
+            spi_resource.clk  .eq(self.spi.sck),
+            spi_resource.cs   .eq(self.spi.cs if not self.cs_idles_high else ~self.spi.cs),
         ]
 
     def elaborate(self, platform: Platform) -> Module:
@@ -224,10 +224,10 @@ class SPIDeviceInterface(Elaboratable):
 
     def connect_to_resource(self, spi_resource):
         return [
-            spi_resource.copi .eq(self.spi_bus_out.sdo),
-            spi_resource.cipo .eq(self.spi_bus_out.sdi),
-            spi_resource.clk  .eq(self.spi_bus_out.sck),
-            spi_resource.cs   .eq(self.spi_bus_out.cs if not self.cs_idles_high else ~self.spi_bus_out.cs),
+            self.spi.sdi      .eq(spi_resource.copi),
+            spi_resource.cipo .eq(self.spi.sdo),
+            self.spi.sck      .eq(spi_resource.clk),
+            self.spi.cs       .eq(spi_resource.cs if not self.cs_idles_high else ~spi_resource.cs),
         ]
 
     def spi_edge_detectors(self, m, sck):
@@ -548,10 +548,10 @@ class SPICommandInterface(Elaboratable):
 
     def connect_to_resource(self, spi_resource):
         return [
-            spi_resource.copi .eq(self.spi_bus_out.sdo),
-            spi_resource.cipo .eq(self.spi_bus_out.sdi),
-            spi_resource.clk  .eq(self.spi_bus_out.sck),
-            spi_resource.cs   .eq(self.spi_bus_out.cs),
+            self.spi.sdi      .eq(spi_resource.copi),
+            spi_resource.cipo .eq(self.spi.sdo),
+            self.spi.sck      .eq(spi_resource.clk),
+            self.spi.cs       .eq(spi_resource.cs),
         ]
 
     def elaborate(self, platform: Platform) -> Module:
@@ -904,10 +904,10 @@ class SPIRegisterInterface(Elaboratable):
 
     def connect_to_resource(self, spi_resource):
         return [
-            spi_resource.copi .eq(self.spi_bus_out.sdo),
-            spi_resource.cipo .eq(self.spi_bus_out.sdi),
-            spi_resource.clk  .eq(self.spi_bus_out.sck),
-            spi_resource.cs   .eq(self.spi_bus_out.cs),
+            self.spi.sdi      .eq(spi_resource.copi),
+            spi_resource.cipo .eq(self.spi.sdo),
+            self.spi.sck      .eq(spi_resource.clk),
+            self.spi.cs       .eq(spi_resource.cs),
         ]
 
     def elaborate(self, platform: Platform) -> Module:
-- 
2.43.0


From ad30e7c4fa50968662abd5d5c43ee4dfeab0918f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:32 +0000
Subject: [PATCH 23/59] fix: seven segment hex digits: D looked exactly like 0

---
 amlib/io/led.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/io/led.py b/amlib/io/led.py
index 3b133a7..30744ea 100644
--- a/amlib/io/led.py
+++ b/amlib/io/led.py
@@ -24,7 +24,7 @@ seven_segment_font = [
 seven_segment_hex_numbers = [
   ['0', 0b1111110], ['1', 0b0110000], ['2', 0b1101101], ['3', 0b1111001], ['4', 0b0110011],
   ['5', 0b1011011], ['6', 0b1011111], ['7', 0b1110000], ['8', 0b1111111], ['9', 0b1111011],
-  ['A', 0b1110111], ['b', 0b0011111], ['C', 0b1001110], ['D', 0b1111110], ['E', 0b1001111], ['F', 0b1000111],
+  ['A', 0b1110111], ['b', 0b0011111], ['C', 0b1001110], ['d', 0b0111101], ['E', 0b1001111], ['F', 0b1000111],
 ]
 
 class NibbleToSevenSegmentHex(Elaboratable):
-- 
2.43.0


From 63361dd0e8a1f08e0e17523c404b14d8c9c9a6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:32 +0000
Subject: [PATCH 24/59] fix: NumberToSevenSegmentHex: registered digits lagged
 one cycle behind their dots

---
 amlib/io/led.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/io/led.py b/amlib/io/led.py
index 30744ea..e3628f8 100644
--- a/amlib/io/led.py
+++ b/amlib/io/led.py
@@ -63,8 +63,8 @@ class NumberToSevenSegmentHex(Elaboratable):
             digit_to_hex = NibbleToSevenSegmentHex()
             m.submodules += digit_to_hex
             domain = m.d.sync if self.register else m.d.comb
+            m.d.comb += digit_to_hex.nibble_in.eq(self.number_in[(i * 4):(i * 4 + 4)])
             domain += [
-                digit_to_hex.nibble_in.eq(self.number_in[(i * 4):(i * 4 + 4)]),
                 self.seven_segment_out[(i * 8):(i * 8 + 7)].eq(digit_to_hex.seven_segment_out),
                 self.seven_segment_out[(i * 8) + 7].eq(self.dots_in[i])
             ]
-- 
2.43.0


From 2911af70941faeddaa52880ff31d96f74b0cbc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:33 +0000
Subject: [PATCH 25/59] fix: NumberToBitBar: the input must be able to hold the
 maximum value

---
 amlib/io/led.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/io/led.py b/amlib/io/led.py
index e3628f8..ba142ae 100644
--- a/amlib/io/led.py
+++ b/amlib/io/led.py
@@ -88,7 +88,7 @@ class NumberToBitBar(Elaboratable):
         self.bitbar   = [Const(int(2**n - 1), bitwidth_out) for n in range(bitwidth_out + 1)]
 
         # I/O
-        self.value_in   = Signal(range(maxvalue_in))
+        self.value_in   = Signal(range(maxvalue_in + 1))
         self.bitbar_out = Signal(bitwidth_out)
 
     def elaborate(self, platform: Platform) -> Module:
-- 
2.43.0


From 64f9f13fa93524de01851b422a20c72f5cfe29a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:44 +0000
Subject: [PATCH 26/59] fix: SerialLEDArray: initialization sequences of eight
 or more commands never ended

---
 amlib/io/max7219.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/io/max7219.py b/amlib/io/max7219.py
index e1d4051..ff2843a 100644
--- a/amlib/io/max7219.py
+++ b/amlib/io/max7219.py
@@ -76,7 +76,7 @@ class SerialLEDArray(Elaboratable):
         with m.If(next_digit):
             m.d.sync += digit_counter.eq(digit_counter + 1)
 
-        step_counter = Signal(range(10))
+        step_counter = Signal(range(2 * len(self.init_sequence) + 2))
         next_step    = Signal()
 
         with m.If(next_step):
-- 
2.43.0


From 7e8d602a20a1c1f14020fd1ffbb8c34aac400cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:27 +0000
Subject: [PATCH 27/59] fix: WS2812: reset must last at least 50us, as
 documented

---
 amlib/io/ws2812.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amlib/io/ws2812.py b/amlib/io/ws2812.py
index e46fe52..cba2282 100644
--- a/amlib/io/ws2812.py
+++ b/amlib/io/ws2812.py
@@ -23,6 +23,7 @@ class WS2812(Elaboratable):
         self.full_cycle_length = sys_clock_freq // 800e3
         self.low_cycle_length  = int(0.32 * self.full_cycle_length)
         self.high_cycle_length = int(0.64 * self.full_cycle_length)
+        self.reset_length      = int(50e-6 * sys_clock_freq)
         print(f"full cycle: {self.full_cycle_length}")
 
         self.mem = Memory(width=24, depth=no_leds, name="led_memory")
@@ -51,7 +52,7 @@ class WS2812(Elaboratable):
         bit_counter = Signal(5)
         current_bit = Signal()
 
-        cycle_counter_width  = bits_for(int(self.full_cycle_length)) + 1
+        cycle_counter_width  = bits_for(max(int(self.full_cycle_length), self.reset_length)) + 1
         cycle_counter        = Signal(cycle_counter_width)
         current_cycle_length = Signal.like(cycle_counter)
 
@@ -77,7 +78,7 @@ class WS2812(Elaboratable):
                 m.d.comb += self.data_out.eq(0)
                 m.d.sync += cycle_counter.eq(cycle_counter + 1)
 
-                with m.If(cycle_counter >= Const(self.full_cycle_length)):
+                with m.If(cycle_counter >= self.reset_length):
                     m.d.sync += cycle_counter.eq(0)
 
                     with m.If(led_counter == 0):
-- 
2.43.0


From 53e7e28ac1fabb0c56cd57545f12fc59026c8005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:28 +0000
Subject: [PATCH 28/59] fix: WS2812: the line must be low while nothing is
 transmitted

---
 amlib/io/ws2812.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/io/ws2812.py b/amlib/io/ws2812.py
index cba2282..964083a 100644
--- a/amlib/io/ws2812.py
+++ b/amlib/io/ws2812.py
@@ -59,7 +59,7 @@ class WS2812(Elaboratable):
         print(f"cycle counter: {cycle_counter_width}")
 
         m.d.comb += [
-            self.data_out.eq(1),
+            self.data_out.eq(0),
             current_bit.eq(grb[23]),
             current_cycle_length.eq(Mux(current_bit, self.high_cycle_length, self.low_cycle_length)),
             mem_write_port.addr.eq(self.led_address_in),
-- 
2.43.0


From b4ed30cf9e9742f397d66eaf9958ad296be3e4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:16 +0000
Subject: [PATCH 29/59] fix: FixedPointFIRFilter: the cutoff frequency was
 divided by the sample rate twice

---
 amlib/dsp/fixedpointfirfilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/dsp/fixedpointfirfilter.py b/amlib/dsp/fixedpointfirfilter.py
index 6cdc154..9d0c919 100644
--- a/amlib/dsp/fixedpointfirfilter.py
+++ b/amlib/dsp/fixedpointfirfilter.py
@@ -28,7 +28,7 @@ class FixedPointFIRFilter(Elaboratable):
 
         if type(cutoff_freq) == int:
             cutoff = cutoff_freq / samplerate
-            taps = signal.firwin(filter_order, cutoff, fs=samplerate, pass_zero=filter_type, window='hamming')
+            taps = signal.firwin(filter_order, cutoff_freq, fs=samplerate, pass_zero=filter_type, window='hamming')
         elif type(cutoff_freq) == list and len(cutoff_freq) == 2:
             Fs = samplerate
             Fpb = cutoff_freq[0]
-- 
2.43.0


From 4f4d0e202b54e6ddd760ebe4fcf9a5227619fe5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:35 +0000
Subject: [PATCH 30/59] fix: FixedPointFIRFilter: the MAC loop never used the
 newest sample

---
 amlib/dsp/fixedpointfirfilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/dsp/fixedpointfirfilter.py b/amlib/dsp/fixedpointfirfilter.py
index 9d0c919..2f90b86 100644
--- a/amlib/dsp/fixedpointfirfilter.py
+++ b/amlib/dsp/fixedpointfirfilter.py
@@ -93,7 +93,7 @@ class FixedPointFIRFilter(Elaboratable):
                     with m.If(self.enable_in):
                         m.d.sync += [
                             ix.eq(1),
-                            a.eq(x[0]),
+                            a.eq(self.signal_in),
                             b.eq(taps[0]),
                             madd.eq(0)
                         ]
-- 
2.43.0


From ad7f249ca82dedf24fbd12f2c17278badfde1323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:38 +0000
Subject: [PATCH 31/59] fix: FixedPointFIRFilter: the MAC loop truncated
 coefficients

---
 amlib/dsp/fixedpointfirfilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/dsp/fixedpointfirfilter.py b/amlib/dsp/fixedpointfirfilter.py
index 2f90b86..2c1e271 100644
--- a/amlib/dsp/fixedpointfirfilter.py
+++ b/amlib/dsp/fixedpointfirfilter.py
@@ -86,7 +86,7 @@ class FixedPointFIRFilter(Elaboratable):
             ix = Signal(range(n + 1))
             madd = Signal(signed(self.bitwidth))
             a = Signal(signed(self.bitwidth))
-            b = Signal(signed(self.bitwidth))
+            b = Signal(signed(width))
 
             with m.FSM(reset="IDLE"):
                 with m.State("IDLE"):
-- 
2.43.0


From 6cf669ff8a64b5de84074e9511cbe6be20fb04e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:03 +0000
Subject: [PATCH 32/59] fix: FixedPointHBFilter: the MAC loop paired outdated
 samples with the outermost coefficient

---
 amlib/dsp/fixedpointhbfilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/dsp/fixedpointhbfilter.py b/amlib/dsp/fixedpointhbfilter.py
index ce33b54..b52f769 100644
--- a/amlib/dsp/fixedpointhbfilter.py
+++ b/amlib/dsp/fixedpointhbfilter.py
@@ -82,7 +82,7 @@ class FixedPointHBFilter(Elaboratable):
                     with m.If(self.strobe_in):
                         m.d.sync += [
                             ix.eq(2),
-                            a.eq(x[0] + x[n - 1]),
+                            a.eq(self.signal_in + x[n - 2]),
                             b.eq(taps[0]),
                             madd.eq(0)
                         ]
-- 
2.43.0


From bf57b403d3bafea905afe5b6d4d6b667096fac33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:05 +0000
Subject: [PATCH 33/59] fix: FixedPointHBFilter: the MAC loop truncated
 coefficients

---
 amlib/dsp/fixedpointhbfilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/dsp/fixedpointhbfilter.py b/amlib/dsp/fixedpointhbfilter.py
index b52f769..fc4442a 100644
--- a/amlib/dsp/fixedpointhbfilter.py
+++ b/amlib/dsp/fixedpointhbfilter.py
@@ -75,7 +75,7 @@ class FixedPointHBFilter(Elaboratable):
             ix = Signal(range(n + 2))
             madd = Signal(signed(self.bitwidth + 1))
             a = Signal(signed(self.bitwidth + 1))
-            b = Signal(signed(self.bitwidth))
+            b = Signal(signed(width))
 
             with m.FSM(reset="IDLE"):
                 with m.State("IDLE"):
-- 
2.43.0


From f656230f5b8dc21fe294ab2b29bb1b933ad151f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:31 +0000
Subject: [PATCH 34/59] fix: FixedPointCICFilter: full-scale input overflowed
 for power-of-two decimation

---
 amlib/dsp/fixedpointcicfilter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amlib/dsp/fixedpointcicfilter.py b/amlib/dsp/fixedpointcicfilter.py
index f4aaea3..7a78f5c 100644
--- a/amlib/dsp/fixedpointcicfilter.py
+++ b/amlib/dsp/fixedpointcicfilter.py
@@ -5,7 +5,7 @@
 
 from amaranth import *
 from amaranth import Signal, Module, Elaboratable
-from math import log2, ceil
+from amaranth.utils import bits_for
 
 from ..test   import GatewareTestCase, sync_test_case
 
@@ -48,7 +48,7 @@ class FixedPointCICFilter(Elaboratable):
         self.stage = filter_stage
         self.decimation = decimation
         self.bitwidth = bitwidth
-        self.delay_width = max(1 + ceil(filter_stage*log2(decimation)), bitwidth)
+        self.delay_width = max(1 + bits_for(decimation**filter_stage), bitwidth)
 
         if verbose:
             print(f"{filter_stage}-stage CIC with decimation: {decimation}")
-- 
2.43.0


From c3d5a9c35f068a39cc3858b1aa55852c42d7cd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:45 +0000
Subject: [PATCH 35/59] fix: FixedPointFFT: output was late by one bin and
 lacked the last one

---
 amlib/dsp/fixedpointfft.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/amlib/dsp/fixedpointfft.py b/amlib/dsp/fixedpointfft.py
index 5c57ff9..bfcf608 100644
--- a/amlib/dsp/fixedpointfft.py
+++ b/amlib/dsp/fixedpointfft.py
@@ -422,7 +422,10 @@ class FixedPointFFT(Elaboratable):
                             xr_rd.addr.eq(idx),
                             xi_rd.addr.eq(idx),
                         ]
-                    m.next = "READOUT"
+                    m.next = "OUTPUT_LATCHED"
+
+            with m.State("OUTPUT_LATCHED"):
+                m.next = "READOUT"
 
             with m.State("READOUT"):
                 with m.If(N & 1):
-- 
2.43.0


From 21d817ee6c83ec19d7d5b1be7457d01fb5f610a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:13 +0000
Subject: [PATCH 36/59] fix: FixedPointFFT: take window values at their strobe,
 not in the following cycle

---
 amlib/dsp/fixedpointfft.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/amlib/dsp/fixedpointfft.py b/amlib/dsp/fixedpointfft.py
index bfcf608..ec907f7 100644
--- a/amlib/dsp/fixedpointfft.py
+++ b/amlib/dsp/fixedpointfft.py
@@ -143,10 +143,6 @@ class FixedPointFFT(Elaboratable):
 
         # Window write
         wfidx = Signal(range(self.pts+1))
-        m.d.comb += [
-            wFr_wr.data.eq(self.wf_real),
-            wFi_wr.data.eq(self.wf_imag),
-        ]
 
         # FFT
         widx = Signal(N)
@@ -229,6 +225,8 @@ class FixedPointFFT(Elaboratable):
                 with m.If(self.wf_strobe):
                     m.d.sync += [
                         wFr_wr.addr.eq(wfidx),
+                        wFr_wr.data.eq(self.wf_real),
+                        wFi_wr.data.eq(self.wf_imag),
                         wFr_wr.en.eq(1),
                         wFi_wr.en.eq(1),
                     ]
-- 
2.43.0


From aaa9d41d6611c82d06e0a9f7a4fb73a9bb5f0888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:13 +0000
Subject: [PATCH 37/59] fix: FixedPointFFT: loaded windows were rotated by one,
 their imaginary parts all written to one place

---
 amlib/dsp/fixedpointfft.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amlib/dsp/fixedpointfft.py b/amlib/dsp/fixedpointfft.py
index ec907f7..e428180 100644
--- a/amlib/dsp/fixedpointfft.py
+++ b/amlib/dsp/fixedpointfft.py
@@ -224,7 +224,8 @@ class FixedPointFFT(Elaboratable):
             with m.State("WINDOW_WR"):
                 with m.If(self.wf_strobe):
                     m.d.sync += [
-                        wFr_wr.addr.eq(wfidx),
+                        wFr_wr.addr.eq(wfidx - 1),
+                        wFi_wr.addr.eq(wfidx - 1),
                         wFr_wr.data.eq(self.wf_real),
                         wFi_wr.data.eq(self.wf_imag),
                         wFr_wr.en.eq(1),
-- 
2.43.0


From ba095f86525ea5e8df337308d86e09d15d670e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:28 +0000
Subject: [PATCH 38/59] fix: StereoConvolutionMAC: hung when a slice was one
 sample short of a power of two

---
 amlib/dsp/convolution/mac.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/dsp/convolution/mac.py b/amlib/dsp/convolution/mac.py
index b20a128..379e0ff 100644
--- a/amlib/dsp/convolution/mac.py
+++ b/amlib/dsp/convolution/mac.py
@@ -118,7 +118,7 @@ class StereoConvolutionMAC(Elaboratable):
         set1 = Signal()
         set2 = Signal()
         output_channels = Signal(2)
-        ix = Signal(range(self._samples_per_slice + 1))
+        ix = Signal(range(self._samples_per_slice + 2))
 
         previous_sample1 = Signal(self._size_of_slizes)
         previous_sample2 = Signal.like(previous_sample1)
-- 
2.43.0


From e308e5da93d2dde0b8a7a0caf5d8cecf289f3da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:42 +0000
Subject: [PATCH 39/59] fix: StereoConvolutionMAC: negative taps borrowed from
 the taps of the neighbouring slice

---
 amlib/dsp/convolution/mac.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amlib/dsp/convolution/mac.py b/amlib/dsp/convolution/mac.py
index 379e0ff..68f3c45 100644
--- a/amlib/dsp/convolution/mac.py
+++ b/amlib/dsp/convolution/mac.py
@@ -95,8 +95,8 @@ class StereoConvolutionMAC(Elaboratable):
             val1 = 0
             val2 = 0
             for j in range(self._slices):
-                val1 += int(taps_fp[i+j]) << (self._slices - j - 1) * self._bitwidth
-                val2 += int(taps2_fp[i+j]) << (self._slices - j - 1) * self._bitwidth
+                val1 += (int(taps_fp[i+j]) & (2**self._bitwidth - 1)) << (self._slices - j - 1) * self._bitwidth
+                val2 += (int(taps2_fp[i+j]) & (2**self._bitwidth - 1)) << (self._slices - j - 1) * self._bitwidth
             taps_fp_mod.append(val1)
             taps2_fp_mod.append(val2)
 
-- 
2.43.0


From 19090536d0bfc69cd8ee264642f27b20c3125bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:46 +0000
Subject: [PATCH 40/59] fix: StereoConvolutionMAC: output samples were lost
 unless the consumer was always ready

---
 amlib/dsp/convolution/mac.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/amlib/dsp/convolution/mac.py b/amlib/dsp/convolution/mac.py
index 68f3c45..808ef9b 100644
--- a/amlib/dsp/convolution/mac.py
+++ b/amlib/dsp/convolution/mac.py
@@ -282,9 +282,12 @@ class StereoConvolutionMAC(Elaboratable):
                     ix.eq(0),
                 ]
 
-                with m.If(output_channels == 2):
+                with m.If(self.signal_out.valid & ~self.signal_out.ready):
+                    # keep offering the sample until it is accepted
+                    m.d.sync += self.signal_out.valid.eq(1)
+                with m.Elif(output_channels == 2):
                     m.next = "IDLE"
-                with m.Elif(self.signal_out.ready):
+                with m.Else():
                     m.d.sync += [
                         output_channels.eq(output_channels + 1),
                         self.signal_out.payload.eq(Mux(output_channels == 0, sumSignalL >> self._bitwidth, sumSignalR >> self._bitwidth)),
-- 
2.43.0


From 353d829765841b318a18b19e2d5747800af3065c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:39 +0000
Subject: [PATCH 41/59] fix: FractionalResampler: valid waited for ready

---
 amlib/dsp/resampler.py | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/amlib/dsp/resampler.py b/amlib/dsp/resampler.py
index 07c4618..a0eab90 100644
--- a/amlib/dsp/resampler.py
+++ b/amlib/dsp/resampler.py
@@ -101,29 +101,22 @@ class FractionalResampler(Elaboratable):
         # downsampling and output
         downsample_counter = Signal(range(self.downsample_factor))
 
-        m.d.comb += [
-            downsamplefifo.w_data.eq(antialiasingfilter.signal_out),
-            self.signal_out.valid.eq(downsamplefifo.r_rdy),
-        ]
-
-        with m.If(downsamplefifo.r_rdy & self.signal_out.ready):
-            m.d.comb += downsamplefifo.r_en.eq(1)
-
-            with m.If(downsample_counter == 0):
-                m.d.sync += downsample_counter.eq(self.downsample_factor - 1)
-                m.d.comb += [
-                    self.signal_out.payload.eq(downsamplefifo.r_data),
-                    self.signal_out.valid.eq(1),
-                ]
-            with m.Else():
-                m.d.sync += downsample_counter.eq(downsample_counter - 1)
-                m.d.comb += self.signal_out.valid.eq(0)
+        m.d.comb += downsamplefifo.w_data.eq(antialiasingfilter.signal_out)
 
-        with m.Else():
+        with m.If(downsample_counter == 0):
+            # valid must not wait for ready: the consumer may wait for valid
             m.d.comb += [
-                downsamplefifo.r_en.eq(0),
-                self.signal_out.valid.eq(0),
+                self.signal_out.payload.eq(downsamplefifo.r_data),
+                self.signal_out.valid.eq(downsamplefifo.r_rdy),
+                downsamplefifo.r_en.eq(downsamplefifo.r_rdy & self.signal_out.ready),
             ]
+            with m.If(downsamplefifo.r_en):
+                m.d.sync += downsample_counter.eq(self.downsample_factor - 1)
+        with m.Else():
+            # discard the samples in between
+            m.d.comb += downsamplefifo.r_en.eq(downsamplefifo.r_rdy)
+            with m.If(downsamplefifo.r_en):
+                m.d.sync += downsample_counter.eq(downsample_counter - 1)
 
         return m
 
-- 
2.43.0


From c284b12bdb336b90399c39a0360936cdecf9389b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:39 +0000
Subject: [PATCH 42/59] fix: FractionalResampler: samples were lost when the
 consumer stalled

---
 amlib/dsp/resampler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amlib/dsp/resampler.py b/amlib/dsp/resampler.py
index a0eab90..dad5cf9 100644
--- a/amlib/dsp/resampler.py
+++ b/amlib/dsp/resampler.py
@@ -69,7 +69,7 @@ class FractionalResampler(Elaboratable):
                        verbose=self.verbose)
 
         m.submodules.downsamplefifo = downsamplefifo = \
-            SyncFIFO(width=self.bitwidth, depth=self.upsample_factor)
+            SyncFIFO(width=self.bitwidth, depth=2 * self.upsample_factor)
 
         # upsampling
         upsampled_signal  = Signal(signed(headroom_bitwidth))
@@ -81,7 +81,8 @@ class FractionalResampler(Elaboratable):
         m.d.comb += [
             self.signal_in.ready.eq(input_ready),
             input_valid.eq(self.signal_in.valid),
-            input_ready.eq((upsample_counter == 0) & (downsamplefifo.w_rdy)),
+            # every input sample yields upsample_factor samples, which must all fit
+            input_ready.eq((upsample_counter == 0) & (downsamplefifo.level <= self.upsample_factor)),
             input_data.eq(self.signal_in.payload.as_signed()),
             antialiasingfilter.signal_in.eq(upsampled_signal),
             antialiasingfilter.enable_in.eq(upsample_counter > 0),
-- 
2.43.0


From 732f6a5fc85585c2ad49dd4efa99a9c81256837d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:22 +0000
Subject: [PATCH 43/59] fix: IntegratedLogicAnalyzer: two pretrigger samples
 were captured as three

---
 amlib/debug/ila.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index 79f6bed..f56f1eb 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -139,7 +139,13 @@ class IntegratedLogicAnalyzer(Elaboratable):
                 if with_enable:
                     delayed_enable = Signal()
                     m.d.comb += delayed_enable.eq(synced_enable)
-            else: # samples_pretrigger >= 2
+            elif self.samples_pretrigger == 2:
+                # the FIFO below can't delay by less than two cycles
+                m.d.sync += delayed_inputs.eq(synced_inputs)
+                if with_enable:
+                    delayed_enable = Signal()
+                    m.d.sync += delayed_enable.eq(synced_enable)
+            else: # samples_pretrigger >= 3
                 capture_fifo_width = self.sample_width
                 if with_enable:
                     capture_fifo_width += 1
-- 
2.43.0


From c840dc3743f79d13c6fc779649407c26eceb5b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:07 +0000
Subject: [PATCH 44/59] fix: IntegratedLogicAnalyzer: a trigger before the
 pretrigger samples were there captured repeated samples

---
 amlib/debug/ila.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index f56f1eb..1e15c06 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -229,6 +229,9 @@ class IntegratedLogicAnalyzer(Elaboratable):
 
             with m.State('CAPTURE'):
                 enabled = delayed_enable if with_enable else 1
+                # the pretrigger FIFO shows no new samples until it has been filled
+                if self.samples_pretrigger >= 3:
+                    enabled = enabled & pretrigger_filled
                 m.d.comb += sampling.eq(enabled)
 
                 with m.If(sampling):
-- 
2.43.0


From 10bab8c1c92272dc6ce0bf0e712d58b4c7b7f211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:12 +0000
Subject: [PATCH 45/59] fix: StreamILA: with a separate output domain the
 samples were sent again and again

---
 amlib/debug/ila.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index 1e15c06..7b952bf 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -815,7 +815,7 @@ class StreamILA(Elaboratable):
 
 
                         # If this was the last sample, we're done! Move back to idle.
-                        with m.If(self.stream.last):
+                        with m.If(in_domain_stream.last):
                             m.next = "IDLE"
 
                     with m.Else():
-- 
2.43.0


From 2a604492c0ae29df3731a3c9c4452765b246ecca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:40 +0000
Subject: [PATCH 46/59] fix: StreamILA: an output domain of sync was renamed to
 the capture domain

---
 amlib/debug/ila.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index 7b952bf..b4c8da4 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -822,9 +822,18 @@ class StreamILA(Elaboratable):
                         m.d.sync += data_valid.eq(1)
 
 
+        # Convert our sync domain to the domain requested by the user, if necessary.
+        if self.domain != "sync":
+            m = DomainRenamer(self.domain)(m)
+
         # If we're not streaming out of the same domain we're capturing from,
-        # we'll add some clock-domain crossing hardware.
+        # we'll add some clock-domain crossing hardware. This must not be subject
+        # to the renaming above, because the output domain may well be `sync`.
         if self._o_domain != self.domain:
+            core = m
+            m    = Module()
+            m.submodules.core = core
+
             in_domain_signals  = Cat(
                 in_domain_stream.first,
                 in_domain_stream.payload,
@@ -840,7 +849,7 @@ class StreamILA(Elaboratable):
             m.submodules.cdc = fifo = AsyncFIFOBuffered(
                 width=len(in_domain_signals),
                 depth=16,
-                w_domain="sync",
+                w_domain=self.domain,
                 r_domain=self._o_domain
             )
 
@@ -856,10 +865,6 @@ class StreamILA(Elaboratable):
                 fifo.r_en               .eq(self.stream.ready)
             ]
 
-        # Convert our sync domain to the domain requested by the user, if necessary.
-        if self.domain != "sync":
-            m = DomainRenamer(self.domain)(m)
-
         return m
 
 class StreamILATest(GatewareTestCase):
-- 
2.43.0


From 4bf9ad2651a50339921c655c2cf9a89aeca77e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:27 +0000
Subject: [PATCH 47/59] fix: StreamILA: valid waited for ready

---
 amlib/debug/ila.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index b4c8da4..0a2658f 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -805,8 +805,8 @@ class StreamILA(Elaboratable):
                 ]
 
                 # Each time the UART accepts a valid word, move on to the next one.
-                with m.If(in_domain_stream.ready):
-                    with m.If(data_valid):
+                with m.If(data_valid):
+                    with m.If(in_domain_stream.ready):
                         m.d.sync += [
                             current_sample_number   .eq(current_sample_number + 1),
                             data_valid              .eq(0),
@@ -818,8 +818,9 @@ class StreamILA(Elaboratable):
                         with m.If(in_domain_stream.last):
                             m.next = "IDLE"
 
-                    with m.Else():
-                        m.d.sync += data_valid.eq(1)
+                # The consumer may wait for valid data before it becomes ready.
+                with m.Else():
+                    m.d.sync += data_valid.eq(1)
 
 
         # Convert our sync domain to the domain requested by the user, if necessary.
-- 
2.43.0


From eb34889f976fe49b80eeb55a9ba3101817ba5c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:23 +0000
Subject: [PATCH 48/59] fix: SyncSerialILA: cs_idles_high was ignored

---
 amlib/debug/ila.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index 0a2658f..aebe122 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -509,6 +509,7 @@ class SyncSerialILA(Elaboratable):
 
         self.clock_phase = clock_phase
         self.clock_polarity = clock_polarity
+        self.cs_idles_high = cs_idles_high
 
         # Extract the domain from our keyword arguments, and then translate it to sync
         # before we pass it back below. We'll use a DomainRenamer at the boundary to
@@ -555,13 +556,16 @@ class SyncSerialILA(Elaboratable):
         m  = Module()
         m.submodules.ila = self.ila
 
-        transaction_start = Rose(self.spi.cs)
+        selected = Signal()
+        m.d.comb += selected.eq(~self.spi.cs if self.cs_idles_high else self.spi.cs)
+        transaction_start = Rose(selected)
 
         # Connect up our SPI transciever to our public interface.
         interface = SPIDeviceInterface(
             word_size=self.bits_per_sample,
             clock_polarity=self.clock_polarity,
-            clock_phase=self.clock_phase
+            clock_phase=self.clock_phase,
+            cs_idles_high=self.cs_idles_high
         )
         m.submodules.spi = interface
         m.d.comb += [
@@ -576,7 +580,7 @@ class SyncSerialILA(Elaboratable):
 
         # Our first piece of data is latched in when the transaction
         # starts, so we'll move on to sample #1.
-        with m.If(self.spi.cs):
+        with m.If(selected):
             with m.If(transaction_start):
                 m.d.sync += current_sample_number.eq(1)
 
-- 
2.43.0


From cc97766997a1386db36683cefc14f2e3eb4cb279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:21:21 +0000
Subject: [PATCH 49/59] fix: SPI: in a renamed clock domain, edges were still
 detected in sync

---
 amlib/debug/ila.py |  4 ++--
 amlib/io/spi.py    | 11 ++++++-----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index aebe122..d4deca6 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -18,7 +18,6 @@ import subprocess
 from abc             import ABCMeta, abstractmethod
 
 from amaranth          import Signal, Module, Cat, Elaboratable, Memory, DomainRenamer, Mux
-from amaranth.hdl.ast  import Rose
 from amaranth.lib.cdc  import FFSynchronizer
 from amaranth.lib.fifo import SyncFIFOBuffered, AsyncFIFOBuffered
 from vcd             import VCDWriter
@@ -28,6 +27,7 @@ from ..stream         import StreamInterface
 from ..stream.uart    import UARTMultibyteTransmitter
 from ..io.spi         import SPIDeviceInterface, SPIDeviceBus, SPIGatewareTestCase
 from ..test.utils     import GatewareTestCase, sync_test_case
+from ..utils          import rising_edge_detected
 
 
 class IntegratedLogicAnalyzer(Elaboratable):
@@ -558,7 +558,7 @@ class SyncSerialILA(Elaboratable):
 
         selected = Signal()
         m.d.comb += selected.eq(~self.spi.cs if self.cs_idles_high else self.spi.cs)
-        transaction_start = Rose(selected)
+        transaction_start = rising_edge_detected(m, selected)
 
         # Connect up our SPI transciever to our public interface.
         interface = SPIDeviceInterface(
diff --git a/amlib/io/spi.py b/amlib/io/spi.py
index 6b3e513..6b8bb7f 100644
--- a/amlib/io/spi.py
+++ b/amlib/io/spi.py
@@ -15,7 +15,7 @@ from amaranth.hdl.rec  import DIR_FANIN, DIR_FANOUT
 from amaranth.lib.cdc  import FFSynchronizer
 
 from ..test   import GatewareTestCase, sync_test_case
-from ..utils  import SimpleClockDivider
+from ..utils  import SimpleClockDivider, rising_edge_detected, falling_edge_detected
 
 class SPIDeviceBus(Record):
     """ Record representing an SPI bus. """
@@ -248,8 +248,9 @@ class SPIDeviceInterface(Elaboratable):
         # Generate the leading and trailing edge detectors.
         # Note that we use rising and falling edge detectors, but call these leading and
         # trailing edges, as our clock here may have been inverted.
-        leading_edge  = Rose(serial_clock, domain="sync")
-        trailing_edge = Fell(serial_clock, domain="sync")
+        # The detectors must follow a renaming of the `sync` domain, which Rose() and Fell() don't.
+        leading_edge  = rising_edge_detected(m, serial_clock)
+        trailing_edge = falling_edge_detected(m, serial_clock)
 
         # Determine the sample and output edges based on the SPI clock phase.
         sample_edge = trailing_edge if self.clock_phase else leading_edge
@@ -320,7 +321,7 @@ class SPIDeviceInterface(Elaboratable):
         # with clock phase 0 we need to output the first bit when chip select
         # goes active, because it will be sampled on the leading edge
         if self.clock_phase == 0:
-            with m.If(Rose(chip_selected, domain="sync")):
+            with m.If(rising_edge_detected(m, chip_selected)):
                 output_one_bit(m)
 
         with m.If(chip_selected):
@@ -559,7 +560,7 @@ class SPICommandInterface(Elaboratable):
         m = Module()
         spi = self.spi
 
-        sample_edge = Fell(spi.sck, domain="sync")
+        sample_edge = falling_edge_detected(m, spi.sck)
 
         # Bit counter: counts the number of bits received.
         max_bit_count = max(self.word_size, self.command_size)
-- 
2.43.0


From fe184b01a6b2d66662ca381a2b20a811d376f17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:59 +0000
Subject: [PATCH 50/59] fix: SPIControllerInterface: in a renamed clock domain,
 edges were still detected in sync

---
 amlib/io/spi.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/amlib/io/spi.py b/amlib/io/spi.py
index 6b8bb7f..6c25501 100644
--- a/amlib/io/spi.py
+++ b/amlib/io/spi.py
@@ -10,12 +10,11 @@ import unittest
 
 from amaranth          import Signal, Module, Cat, Elaboratable, Record, Mux
 from amaranth.build    import Platform
-from amaranth.hdl.ast  import Rose, Fell
 from amaranth.hdl.rec  import DIR_FANIN, DIR_FANOUT
 from amaranth.lib.cdc  import FFSynchronizer
 
 from ..test   import GatewareTestCase, sync_test_case
-from ..utils  import SimpleClockDivider, rising_edge_detected, falling_edge_detected
+from ..utils  import SimpleClockDivider, past_value_of, rising_edge_detected, falling_edge_detected
 
 class SPIDeviceBus(Record):
     """ Record representing an SPI bus. """
@@ -128,14 +127,15 @@ class SPIControllerInterface(Elaboratable):
             self.word_complete.eq(spi_device.word_complete),
         ]
 
+        # The detectors must follow a renaming of the `sync` domain, which Rose() and Fell() don't.
+        edge_detected = rising_edge_detected if (self.clock_phase == 1) != bool(self.clock_polarity) else falling_edge_detected
+        divided_clock = sck_divider.clock_out
         if self.clock_phase == 1:
-            clock_edge = Rose(sck_divider.clock_out, clocks=self.divisor//8, domain="sync") if not self.clock_polarity else \
-                         Fell(sck_divider.clock_out, clocks=self.divisor//8, domain="sync")
-        else:
-            # the chip must be selected before the first leading edge,
-            # because the first bit is already sampled there
-            clock_edge = Fell(sck_divider.clock_out, domain="sync") if not self.clock_polarity else \
-                         Rose(sck_divider.clock_out, domain="sync")
+            for _ in range(self.divisor//8):
+                divided_clock = past_value_of(m, divided_clock, domain="sync")
+        # with clock phase 0 the chip must be selected before the first leading edge,
+        # because the first bit is already sampled there
+        clock_edge = edge_detected(m, divided_clock)
 
         with m.FSM() as fsm:
             m.d.comb += [
-- 
2.43.0


From a2a551570e880e25832a1087a0ef36f86cc210e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:26 +0000
Subject: [PATCH 51/59] fix: ila: list the sample clock in the GTKWave file
 only if it is in the VCD

---
 amlib/debug/ila.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index d4deca6..37f5dd5 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -1211,7 +1211,8 @@ class ILAFrontend(metaclass=ABCMeta):
             gtkw.dumpfile(dump_filename)
 
             # If we're adding a clock, add it to the top of the view.
-            gtkw.trace('ila.ila_clock')
+            if add_clock:
+                gtkw.trace('ila.ila_clock')
 
             # Gain more screen space by collapsing the signal tree
             gtkw.sst_expanded(False)
-- 
2.43.0


From b66a8b4e38730168b0733a28e4f1ce4a1482cb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:26 +0000
Subject: [PATCH 52/59] fix: ila: honour add_clock in interactive_display

---
 amlib/debug/ila.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index 37f5dd5..51bb55e 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -1237,7 +1237,7 @@ class ILAFrontend(metaclass=ABCMeta):
             vcd_filename = os.path.join(tempfile.gettempdir(), os.urandom(24).hex() + '.vcd')
             gtkw_filename = os.path.join(tempfile.gettempdir(), os.urandom(24).hex() + '.gtkw')
 
-            self.emit_vcd(vcd_filename, gtkw_filename=gtkw_filename)
+            self.emit_vcd(vcd_filename, gtkw_filename=gtkw_filename, add_clock=add_clock)
             subprocess.run(["gtkwave", "-f", vcd_filename, "-a", gtkw_filename])
         finally:
             os.remove(vcd_filename)
-- 
2.43.0


From 8853d64bc8a554ddecdec4be5fedd0e585f04727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:26 +0000
Subject: [PATCH 53/59] fix: ila: do not mix messages into a VCD written to
 stdout

---
 amlib/debug/ila.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index 51bb55e..0dae6fe 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -1165,7 +1165,6 @@ class ILAFrontend(metaclass=ABCMeta):
 
             # Create named values for each of our signals.
             for signal in self.ila.signals:
-                print(f"register signal {signal.name} with size {len(signal)}, signed: {signal.signed}")
                 signals[signal.name] = writer.register_var('ila', signal.name, 'integer', size=len(signal))
 
             # Dump the each of our samples into the VCD.
-- 
2.43.0


From 93b7d41b4f6bd4495577dbc34f636de098c1e571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:26 +0000
Subject: [PATCH 54/59] fix: ila: decode samples received by UART in the byte
 order they are sent

---
 amlib/debug/ila.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index 0dae6fe..f5417db 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -1274,7 +1274,7 @@ class AsyncSerialILAFrontend(ILAFrontend):
             raw_sample    = all_samples[i:i + sample_width_bytes]
             sample_length = len(Cat(self.ila.signals))
 
-            yield bits.from_bytes(raw_sample, length=sample_length, byteorder='big')
+            yield bits.from_bytes(raw_sample, length=sample_length, byteorder='little')
 
 
     def _read_samples(self):
-- 
2.43.0


From 3706fc700974e3c46cd3fbbb3310b3572d075fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:29 +0000
Subject: [PATCH 55/59] fix: WishboneROM: honour data_width and granularity

---
 amlib/soc/memory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/soc/memory.py b/amlib/soc/memory.py
index 23b9d48..3225e15 100644
--- a/amlib/soc/memory.py
+++ b/amlib/soc/memory.py
@@ -152,7 +152,7 @@ class WishboneROM(WishboneRAM):
         super().__init__(
             addr_width=addr_width,
             data_width=data_width,
-            granularity=8,
+            granularity=granularity,
             init=data,
             read_only=True,
             name=name
-- 
2.43.0


From cf9b434a0aff4031fbd6472b9d6f6b0faf0b7c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:45 +0000
Subject: [PATCH 56/59] fix: WishboneRAM: accept any bytes-like initial value,
 as documented

---
 amlib/soc/memory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amlib/soc/memory.py b/amlib/soc/memory.py
index 3225e15..0b253a8 100644
--- a/amlib/soc/memory.py
+++ b/amlib/soc/memory.py
@@ -30,8 +30,9 @@ class WishboneRAM(Elaboratable):
                 value = f.read()
 
         # If we don't have bytes, read this direction.
-        if not isinstance(value, bytes):
+        if not isinstance(value, (bytes, bytearray, memoryview)):
             return value
+        value = bytes(value)
 
         bytes_per_chunk = data_width // granularity
 
-- 
2.43.0


From 0305230608d68a1fda9e84d48d25035279371b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:48 +0000
Subject: [PATCH 57/59] fix: WishboneRAM: initialise whole words from bytes
 whatever the granularity

---
 amlib/soc/memory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/soc/memory.py b/amlib/soc/memory.py
index 0b253a8..58f5e36 100644
--- a/amlib/soc/memory.py
+++ b/amlib/soc/memory.py
@@ -34,7 +34,7 @@ class WishboneRAM(Elaboratable):
             return value
         value = bytes(value)
 
-        bytes_per_chunk = data_width // granularity
+        bytes_per_chunk = data_width // 8
 
         words = (value[pos:pos + bytes_per_chunk] for pos in range(0, len(value), bytes_per_chunk))
         return [int.from_bytes(word, byteorder=byteorder) for word in words]
-- 
2.43.0


From 97b32796472cd0c98c678af6dc089894bd09680f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:53 +0000
Subject: [PATCH 58/59] fix: WishboneRAM: place a partial last word correctly
 in big-endian order

---
 amlib/soc/memory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/soc/memory.py b/amlib/soc/memory.py
index 58f5e36..922806c 100644
--- a/amlib/soc/memory.py
+++ b/amlib/soc/memory.py
@@ -37,7 +37,7 @@ class WishboneRAM(Elaboratable):
         bytes_per_chunk = data_width // 8
 
         words = (value[pos:pos + bytes_per_chunk] for pos in range(0, len(value), bytes_per_chunk))
-        return [int.from_bytes(word, byteorder=byteorder) for word in words]
+        return [int.from_bytes(word.ljust(bytes_per_chunk, b"\0"), byteorder=byteorder) for word in words]
 
     def __init__(self, *, addr_width, data_width=32, granularity=8, init=None,
             read_only=False, byteorder="little", name="ram"):
-- 
2.43.0


From 2a775b6c7c2ee4d2aa0cca5ab15961965434bcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:23 +0000
Subject: [PATCH 59/59] fix: generate_c_header raised KeyError for registers
 that are not 1, 2 or 4 bytes long

---
 amlib/soc/simplesoc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/amlib/soc/simplesoc.py b/amlib/soc/simplesoc.py
index 6d1f25b..bc7b5d0 100644
--- a/amlib/soc/simplesoc.py
+++ b/amlib/soc/simplesoc.py
@@ -393,6 +393,7 @@ class SimpleSoC(CPUSoC, Elaboratable):
 
         # Create a mapping that maps our register sizes to C types.
         types_for_size = {
+            8: 'uint64_t',
             4: 'uint32_t',
             2: 'uint16_t',
             1: 'uint8_t'
@@ -438,9 +439,9 @@ class SimpleSoC(CPUSoC, Elaboratable):
             emit(f"#define {name.upper()}_SIZE ({size})")
 
             # If we have information on how to access this resource, generate convenience
-            # macros for reading and writing it.
-            if hasattr(resource.resource, 'access'):
-                c_type = types_for_size[size]
+            # macros for reading and writing it; unless it has a size no C type can access.
+            c_type = types_for_size.get(size)
+            if c_type and hasattr(resource.resource, 'access'):
 
                 # Generate a read stub, if useful...
                 if resource.resource.access.readable():
-- 
2.43.0

