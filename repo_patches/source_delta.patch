From 9a98b56d0e6a39b471b933bb70b77625fa6a2115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:15 +0000
Subject: [PATCH 01/48] fix: first marker and start position limit of
 ConstantStreamGenerator

The first marker was derived by comparing against the live start_position
input, so it was missing when an out-of-range start position had been limited
and wrong when the input changed during a transmission. The limit itself
compared a word position against the length in bytes.
---
 amlib/stream/generator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/amlib/stream/generator.py b/amlib/stream/generator.py
index 7fc19b6..bcc2e20 100644
--- a/amlib/stream/generator.py
+++ b/amlib/stream/generator.py
@@ -162,7 +162,8 @@ class ConstantStreamGenerator(Elaboratable):
             bytes_per_word = 0
 
         # Track when we're on the first and last packet.
-        on_first_packet = position_in_stream == self.start_position
+        # (The start position only applies when start is pulsed, so we can't compare against it later on.)
+        on_first_packet = Signal()
         on_last_packet  = \
             (position_in_stream          == (data_length - 1)) | \
             (bytes_sent + bytes_per_word >= self.max_length)
@@ -173,7 +174,7 @@ class ConstantStreamGenerator(Elaboratable):
         start_position = Signal.like(position_in_stream)
 
         # If our starting position is greater than our data length, use our data length.
-        with m.If(self.start_position >= self._data_length):
+        with m.If(self.start_position >= data_length):
             m.d.comb += start_position.eq(data_length - 1)
 
         # Otherwise, use our starting position.
@@ -198,6 +199,7 @@ class ConstantStreamGenerator(Elaboratable):
                 # Keep ourselves at the beginning of the stream, but don't yet count.
                 m.d.sync += [
                     position_in_stream  .eq(start_position),
+                    on_first_packet     .eq(1),
                     bytes_sent          .eq(0)
                 ]
                 m.d.comb += [
@@ -288,6 +290,7 @@ class ConstantStreamGenerator(Elaboratable):
 
                 # If the current data byte is accepted, move past it.
                 with m.If(self.stream.ready):
+                    m.d.sync += on_first_packet.eq(0)
 
                     # If there's still data left to transmit, move forward.
                     with m.If(~on_last_packet):
-- 
2.43.0


From 2c96aea212c0c8fd57c5d1cba4c8678063f2da9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:25 +0000
Subject: [PATCH 02/48] fix: PacketListStreamer end detection, start after
 reset and wide payloads

The position after the last packet wrapped to zero when the total length is a
power of two, so the list never ended. A start strobe in the first cycle after
power-on saw the not yet read packet length (zero) and hung. The requested
data width was not passed to the generator, which truncated wide payloads.
---
 amlib/stream/generator.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/amlib/stream/generator.py b/amlib/stream/generator.py
index bcc2e20..382d72a 100644
--- a/amlib/stream/generator.py
+++ b/amlib/stream/generator.py
@@ -732,19 +732,22 @@ class PacketListStreamer(Elaboratable):
         packet_lengths = [len(p) for p in self.packets]
         no_packets = len(packet_lengths)
 
-        max_length_width = bits_for(max(packet_lengths))
+        # the generator counts its maximum length in bytes
+        bytes_per_word = (self._data_width + 7) // 8
+        max_length_width = bits_for(max(packet_lengths) * bytes_per_word)
         packets_flattened = [words for packet in self.packets for words in packet]
 
         m.submodules.generator = generator = \
-            ConstantStreamGenerator(packets_flattened, max_length_width=max_length_width)
+            ConstantStreamGenerator(packets_flattened, data_width=self._data_width, max_length_width=max_length_width)
 
         rom = Memory(width=max_length_width, depth=no_packets, init=packet_lengths)
-        m.submodules.packet_lengths_rom = packet_lengths_rom = rom.read_port(transparent=False)
+        # asynchronous, because the length is needed in the very cycle of the start strobe
+        m.submodules.packet_lengths_rom = packet_lengths_rom = rom.read_port(domain="comb")
 
         total_no_bytes = len(packets_flattened)
 
         position           = Signal(range(total_no_bytes))
-        next_position      = Signal.like(position)
+        next_position      = Signal(range(total_no_bytes + 1))
         current_packet     = Signal(range(no_packets))
         current_packet_len = Signal(max_length_width)
 
@@ -754,7 +757,7 @@ class PacketListStreamer(Elaboratable):
             generator.start_position.eq(position),
             packet_lengths_rom.addr.eq(current_packet),
             current_packet_len.eq(packet_lengths_rom.data),
-            generator.max_length.eq(current_packet_len),
+            generator.max_length.eq(current_packet_len * bytes_per_word),
             next_position.eq(position + current_packet_len),
             self.done.eq(0)
         ]
-- 
2.43.0


From 428ca5581d18ddbe8673d6975030eef3959e5b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:19 +0000
Subject: [PATCH 03/48] fix: read data of TransactionalizedFIFO right after
 read_discard

The memory kept reading at the discarded position for one cycle, so the first
word presented after a rewind was stale although the FIFO was not empty.
---
 amlib/utils/fifo.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/amlib/utils/fifo.py b/amlib/utils/fifo.py
index d82730f..63eabda 100644
--- a/amlib/utils/fifo.py
+++ b/amlib/utils/fifo.py
@@ -179,8 +179,11 @@ class TransactionalizedFIFO(Elaboratable):
 
         # Our memory always takes a single cycle to provide its read output; so we'll update its address
         # "one cycle in advance". Accordingly, if we're about to advance the FIFO, we'll use the next read
-        # address as our input. If we're not, we'll use the current one.
-        with m.If(self.read_en & ~self.empty):
+        # address as our input. If we're not, we'll use the current one. If we're about to rewind, our next
+        # output is the one at the position we're rewinding to.
+        with m.If(self.read_discard):
+            m.d.comb += read_port.addr.eq(committed_read_pointer)
+        with m.Elif(self.read_en & ~self.empty):
             m.d.comb += read_port.addr.eq(next_read_pointer)
         with m.Else():
             m.d.comb += read_port.addr.eq(current_read_pointer)
-- 
2.43.0


From 1ab163e75575780921ba50be4698a4781066ab76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:31 +0000
Subject: [PATCH 04/48] fix: idle of UARTMultibyteTransmitter while the last
 byte is being sent

The multi-byte transmitter reported idle as soon as the last byte was handed to
the core transmitter, a whole frame before it was on the line.
---
 amlib/stream/uart.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amlib/stream/uart.py b/amlib/stream/uart.py
index 3f23320..b2a1429 100644
--- a/amlib/stream/uart.py
+++ b/amlib/stream/uart.py
@@ -318,7 +318,8 @@ class UARTMultibyteTransmitter(Elaboratable):
 
 
         with m.FSM() as f:
-            m.d.comb += self.idle.eq(f.ongoing('IDLE'))
+            # We're only idle once the last byte has left our core transmitter, too.
+            m.d.comb += self.idle.eq(f.ongoing('IDLE') & uart.idle)
 
             # IDLE: transmitter is waiting for input
             with m.State("IDLE"):
-- 
2.43.0


From b2c23fabd9a8739c35eca73da0f6a4fc994bba29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:19 +0000
Subject: [PATCH 05/48] fix: consecutive SPI words of a size that is no power
 of two

---
 amlib/io/spi.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amlib/io/spi.py b/amlib/io/spi.py
index 3345ebb..8d2eecc 100644
--- a/amlib/io/spi.py
+++ b/amlib/io/spi.py
@@ -333,6 +333,7 @@ class SPIDeviceInterface(Elaboratable):
                 # If we're just completing a word, handle I/O.
                 with m.If(bit_count + 1 == self.word_size):
                     m.d.sync += [
+                        bit_count          .eq(0),
                         self.word_accepted .eq(1),
                         current_tx         .eq(self.word_out)
                     ]
-- 
2.43.0


From f79d5315fca8c424097b845e234f498c13b26582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:19 +0000
Subject: [PATCH 06/48] fix: chip select of the SPI controller in clock phase 0
 comes before the first clock edge

---
 amlib/io/spi.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/amlib/io/spi.py b/amlib/io/spi.py
index 8d2eecc..c0f359b 100644
--- a/amlib/io/spi.py
+++ b/amlib/io/spi.py
@@ -128,13 +128,21 @@ class SPIControllerInterface(Elaboratable):
             self.word_complete.eq(spi_device.word_complete),
         ]
 
-        clock_edge = Rose(sck_divider.clock_out, clocks=self.divisor//8, domain="sync") if not self.clock_polarity else \
-                     Fell(sck_divider.clock_out, clocks=self.divisor//8, domain="sync")
+        leading_edge  = Rose if not self.clock_polarity else Fell
+        trailing_edge = Fell if not self.clock_polarity else Rose
+
+        # with clock phase 0 the first bit is sampled on the first leading edge, so the device
+        # has to be selected on the trailing edge before it, half a clock period earlier
+        if self.clock_phase == 0:
+            clock_edge = trailing_edge(sck_divider.clock_out, domain="sync")
+        else:
+            clock_edge = leading_edge(sck_divider.clock_out, clocks=self.divisor//8, domain="sync")
 
         with m.FSM() as fsm:
-            m.d.comb += sck.eq(Mux(fsm.ongoing("TRANSFER"), sck_divider.clock_out, self.clock_polarity))
-            cs_domain = m.d.comb if self.clock_phase == 1 else m.d.sync
-            cs_domain += cs.eq(Mux(fsm.ongoing("TRANSFER"), cs_active, cs_inactive))
+            m.d.comb += [
+                sck.eq(Mux(fsm.ongoing("TRANSFER"), sck_divider.clock_out, self.clock_polarity)),
+                cs .eq(Mux(fsm.ongoing("TRANSFER"), cs_active, cs_inactive)),
+            ]
 
             with m.State("IDLE"):
                 m.d.sync += sck_divider.clock_enable_in.eq(0)
-- 
2.43.0


From 08c43effcf575c17d71ad735944d2692c7d784d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:12 +0000
Subject: [PATCH 07/48] fix: I2CStreamTransmitter waits for the producer inside
 a packet instead of sending garbage

---
 amlib/stream/i2c.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/amlib/stream/i2c.py b/amlib/stream/i2c.py
index 5bf260b..65301e9 100644
--- a/amlib/stream/i2c.py
+++ b/amlib/stream/i2c.py
@@ -53,15 +53,14 @@ class I2CStreamTransmitter(Elaboratable):
                     m.next = "STREAMING"
 
             with m.State("STREAMING"):
-                with m.If(~i2c.busy):
+                # wait for the next byte of the packet, if the producer is late
+                with m.If(~i2c.busy & in_fifo.r_rdy):
                     m.d.comb += [
                         i2c.data_i.eq(payload),
                         i2c.write.eq(1),
+                        in_fifo.r_en.eq(1),
                     ]
 
-                    with m.If(in_fifo.r_rdy):
-                        m.d.comb += in_fifo.r_en.eq(1)
-
                     with m.If(last):
                         m.next = "STOP"
 
-- 
2.43.0


From 64a5493e9c8162eed36cc0bd4a84d658feb69f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:13 +0000
Subject: [PATCH 08/48] fix: I2CInitiator ignores requests while busy is high,
 as documented

---
 amlib/io/i2c.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/amlib/io/i2c.py b/amlib/io/i2c.py
index 3061964..659fa9b 100644
--- a/amlib/io/i2c.py
+++ b/amlib/io/i2c.py
@@ -166,7 +166,10 @@ class I2CInitiator(Module):
 
         self.fsm.act("IDLE",
             NextValue(self.busy, 1),
-            If(self.start,
+            If(self.busy,
+                # the end of the last operation is not visible yet, so requests are ignored
+                NextValue(self.busy, 0)
+            ).Elif(self.start,
                 If(bus.scl_i & bus.sda_i,
                     NextState("START-SDA-L")
                 ).Elif(~bus.scl_i,
-- 
2.43.0


From 9e59a4119c9d8308253dc51d895aec5888c3c758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:17 +0000
Subject: [PATCH 09/48] fix: repeated start requested right after a start
 condition

---
 amlib/io/i2c.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/io/i2c.py b/amlib/io/i2c.py
index 659fa9b..44810f6 100644
--- a/amlib/io/i2c.py
+++ b/amlib/io/i2c.py
@@ -170,7 +170,7 @@ class I2CInitiator(Module):
                 # the end of the last operation is not visible yet, so requests are ignored
                 NextValue(self.busy, 0)
             ).Elif(self.start,
-                If(bus.scl_i & bus.sda_i,
+                If(bus.scl_i & bus.sda_i & bus.sda_o,
                     NextState("START-SDA-L")
                 ).Elif(~bus.scl_i,
                     NextState("START-SCL-H")
-- 
2.43.0


From 36c43bd3a0743cd88785f13127b85390c4f74429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:11 +0000
Subject: [PATCH 10/48] fix: I2S samples of up to 16 bits and of 32 bits

A stream item carries one sample of one channel, so gluing both channels
into one FIFO word lost one of them, and the bit counters were too small
for sample widths that are a power of two.
---
 amlib/io/i2s.py | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/amlib/io/i2s.py b/amlib/io/i2s.py
index 4a2a230..6b69922 100644
--- a/amlib/io/i2s.py
+++ b/amlib/io/i2s.py
@@ -6,7 +6,6 @@
 #   Copyright (c) 2021 Hans Baier <hansfbaier@gmail.com>
 # SPDX-License-Identifier: BSD-2-Clause
 
-import math
 from enum import Enum
 
 from amaranth import *
@@ -106,20 +105,14 @@ class I2STransmitter(Elaboratable):
         frame_format = self._frame_format
 
         fifo_data_width = sample_width
-        concatenate_channels = True
-        if concatenate_channels:
-            if sample_width <= 16:
-                fifo_data_width = sample_width * 2
-            else:
-                concatenate_channels = False
-                print("I2S warning: sample width greater than 16 bits. your channels can't be glued")
+        # each item of the stream carries one sample of one channel, so the channels can't be glued
+        concatenate_channels = False
 
         tx_buf_width = fifo_data_width + 1 if frame_format == I2S_FORMAT.STANDARD else fifo_data_width
         sample_width = sample_width + 1    if frame_format == I2S_FORMAT.STANDARD else sample_width
         offset       = [0]                 if frame_format == I2S_FORMAT.STANDARD else []
 
-        tx_cnt_width = math.ceil(math.log(fifo_data_width,2))
-        tx_cnt = Signal(tx_cnt_width)
+        tx_cnt = Signal(range(sample_width + 1))
         tx_shifter = Signal(tx_buf_width - 1)
         sample_msb = fifo_data_width - 1
 
@@ -342,16 +335,10 @@ class I2SReceiver(Elaboratable):
         frame_format = self._frame_format
 
         fifo_data_width = sample_width
-        concatenate_channels = True
-        if concatenate_channels:
-            if sample_width <= 16:
-                fifo_data_width = sample_width * 2
-            else:
-                concatenate_channels = False
-                print("I2S warning: sample width greater than 16 bits. your channels can't be glued")
+        # each item of the stream carries one sample of one channel, so the channels can't be glued
+        concatenate_channels = False
 
-        rx_cnt_width = math.ceil(math.log(fifo_data_width, 2))
-        rx_cnt = Signal(rx_cnt_width)
+        rx_cnt = Signal(range(sample_width + 1))
 
         bit_clock  = Signal()
         word_clock = Signal()
-- 
2.43.0


From 67015869fc1a706e6c1d5683544d9546e6ee5421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:13 +0000
Subject: [PATCH 11/48] fix: alignment of the first I2S frame after enabling

Transmitter and receiver started anywhere inside the left channel, one bit
late, and the transmitter sent stale FIFO contents when there was nothing to
send or when the first sample was not marked as left.
---
 amlib/io/i2s.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/amlib/io/i2s.py b/amlib/io/i2s.py
index 6b69922..abb984d 100644
--- a/amlib/io/i2s.py
+++ b/amlib/io/i2s.py
@@ -151,18 +151,26 @@ class I2STransmitter(Elaboratable):
 
         with m.FSM(reset="IDLE"):
             with m.State("IDLE"):
+                m.d.sync += tx_shifter.eq(0)
                 with m.If(self.enable_in):
-                    with m.If(bit_clock_rose & left_channel):
+                    with m.If(bit_clock_rose & right_channel):
                         m.next = "WAIT_SYNC"
 
+            # the first frame starts when the left channel begins
             with m.State("WAIT_SYNC"):
-                with m.If(bit_clock_rose & left_channel):
+                with m.If(~self.enable_in):
+                    m.next = "IDLE"
+                with m.Elif(bit_clock_rose & left_channel):
+                    m.d.sync += tx_cnt.eq(sample_width)
+                    with m.If(tx_fifo.r_rdy):
+                        with m.If(first_flag):
+                            m.d.sync += tx_shifter.eq(Cat(tx_fifo.r_data, offset))
+                            m.d.comb += tx_fifo.r_en.eq(1)
+                        with m.Else():
+                            m.d.comb += self.mismatch_out.eq(1)
+                    with m.Else():
+                        m.d.comb += self.underflow_out.eq(1)
                     m.next = "LEFT_FALL"
-                    m.d.sync += [
-                        tx_cnt.eq(sample_width),
-                        tx_shifter.eq(Cat(tx_fifo.r_data, offset))
-                    ]
-                    m.d.comb += tx_fifo.r_en.eq(1),
 
             # sync should be sampled on rising edge, but data should change on falling edge
             with m.State("LEFT_FALL"):
@@ -382,12 +390,15 @@ class I2SReceiver(Elaboratable):
             with m.State("IDLE"):
                 m.d.sync += rx_buf.eq(0)
                 with m.If(self.enable_in):
-                    with m.If(bit_clock_rose & left_channel):
+                    with m.If(bit_clock_rose & right_channel):
                         m.d.sync += rx_delay_cnt.eq(rx_delay_val)
                         m.next = "WAIT_SYNC"
 
+            # the first frame starts when the left channel begins
             with m.State("WAIT_SYNC"):
-                with m.If(bit_clock_rose & left_channel):
+                with m.If(~self.enable_in):
+                    m.next = "IDLE"
+                with m.Elif(bit_clock_rose & left_channel):
                     with m.If(rx_delay_cnt > 0):
                         m.d.sync += rx_delay_cnt.eq(rx_delay_cnt - 1)
                         m.next = "WAIT_SYNC"
-- 
2.43.0


From 61ba02d0c1ae6910f0152397802eb44116276669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:34 +0000
Subject: [PATCH 12/48] fix: left justified I2S transmission

The transmitter could not be elaborated for the left justified format, and
would have sent each word one bit clock late.
---
 amlib/io/i2s.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/amlib/io/i2s.py b/amlib/io/i2s.py
index abb984d..ad6c547 100644
--- a/amlib/io/i2s.py
+++ b/amlib/io/i2s.py
@@ -108,12 +108,11 @@ class I2STransmitter(Elaboratable):
         # each item of the stream carries one sample of one channel, so the channels can't be glued
         concatenate_channels = False
 
-        tx_buf_width = fifo_data_width + 1 if frame_format == I2S_FORMAT.STANDARD else fifo_data_width
         sample_width = sample_width + 1    if frame_format == I2S_FORMAT.STANDARD else sample_width
         offset       = [0]                 if frame_format == I2S_FORMAT.STANDARD else []
 
         tx_cnt = Signal(range(sample_width + 1))
-        tx_shifter = Signal(tx_buf_width - 1)
+        tx_shifter = Signal(fifo_data_width)
         sample_msb = fifo_data_width - 1
 
         bit_clock  = Signal()
@@ -135,6 +134,16 @@ class I2STransmitter(Elaboratable):
             right_channel.eq(~left_channel)
         ]
 
+        # in the standard format the first bit of a word follows one bit clock after the
+        # word clock has changed, in the left justified format both change together
+        word_start = Signal()
+        if frame_format == I2S_FORMAT.STANDARD:
+            m.d.comb += word_start.eq(bit_clock_rose)
+            left_start, right_start = "LEFT_FALL", "RIGHT_FALL"
+        else:
+            m.d.comb += word_start.eq(~bit_clock)
+            left_start, right_start = "LEFT", "RIGHT"
+
         m.submodules.tx_fifo = tx_fifo = SyncFIFOBuffered(width=fifo_data_width + 1, depth=self._fifo_depth)
 
         # first marks left channel
@@ -160,7 +169,7 @@ class I2STransmitter(Elaboratable):
             with m.State("WAIT_SYNC"):
                 with m.If(~self.enable_in):
                     m.next = "IDLE"
-                with m.Elif(bit_clock_rose & left_channel):
+                with m.Elif(word_start & left_channel):
                     m.d.sync += tx_cnt.eq(sample_width)
                     with m.If(tx_fifo.r_rdy):
                         with m.If(first_flag):
@@ -170,7 +179,7 @@ class I2STransmitter(Elaboratable):
                             m.d.comb += self.mismatch_out.eq(1)
                     with m.Else():
                         m.d.comb += self.underflow_out.eq(1)
-                    m.next = "LEFT_FALL"
+                    m.next = left_start
 
             # sync should be sampled on rising edge, but data should change on falling edge
             with m.State("LEFT_FALL"):
@@ -207,9 +216,9 @@ class I2STransmitter(Elaboratable):
                     with m.If(~self.enable_in):
                         m.next = "IDLE"
                     with m.Else():
-                        with m.If(bit_clock_rose):
+                        with m.If(bit_clock_rose | (word_start & (tx_cnt == 0))):
                             with m.If((tx_cnt == 0)):
-                                with m.If(right_channel):
+                                with m.If(word_start & right_channel):
                                     m.d.sync += tx_cnt.eq(sample_width),
                                     with m.If(tx_fifo.r_rdy):
                                         # in LEFT_WAIT state, we wait for the
@@ -222,7 +231,7 @@ class I2STransmitter(Elaboratable):
                                     with m.Else():
                                         m.d.comb += self.underflow_out.eq(1)
 
-                                    m.next = "RIGHT_FALL"
+                                    m.next = right_start
                                 with m.Else():
                                     m.next = "LEFT_WAIT"
                             with m.Elif(tx_cnt > 0):
@@ -248,8 +257,8 @@ class I2STransmitter(Elaboratable):
                 with m.If(~self.enable_in):
                     m.next = "IDLE"
                 with m.Else():
-                    with m.If(bit_clock_rose):
-                        with m.If((tx_cnt == 0) & left_channel):
+                    with m.If(bit_clock_rose | (word_start & (tx_cnt == 0))):
+                        with m.If((tx_cnt == 0) & word_start & left_channel):
                             m.d.sync += tx_cnt.eq(sample_width)
                             with m.If(tx_fifo.r_rdy):
                                 # in RIGHT_WAIT, we wait for the left channel to start
@@ -260,7 +269,7 @@ class I2STransmitter(Elaboratable):
                                     m.d.comb += self.mismatch_out.eq(1)
                             with m.Else():
                                 m.d.comb += self.underflow_out.eq(1)
-                            m.next = "LEFT_FALL"
+                            m.next = left_start
                         with m.Elif(tx_cnt > 0):
                             m.next = "RIGHT_FALL"
 
-- 
2.43.0


From 581c3c93b4eacd0cb853840241edb59d53b169cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:50 +0000
Subject: [PATCH 13/48] fix: MAX7219 initialisation sequences of more than
 seven commands

---
 amlib/io/max7219.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/io/max7219.py b/amlib/io/max7219.py
index e1d4051..ff2843a 100644
--- a/amlib/io/max7219.py
+++ b/amlib/io/max7219.py
@@ -76,7 +76,7 @@ class SerialLEDArray(Elaboratable):
         with m.If(next_digit):
             m.d.sync += digit_counter.eq(digit_counter + 1)
 
-        step_counter = Signal(range(10))
+        step_counter = Signal(range(2 * len(self.init_sequence) + 2))
         next_step    = Signal()
 
         with m.If(next_step):
-- 
2.43.0


From ff4f6d2ffe24c1b072303ac2729698d054141294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:50 +0000
Subject: [PATCH 14/48] fix: Timer with a load or reload value of one

---
 amlib/utils/timer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/amlib/utils/timer.py b/amlib/utils/timer.py
index 8ac9f39..747b21d 100644
--- a/amlib/utils/timer.py
+++ b/amlib/utils/timer.py
@@ -31,7 +31,10 @@ class Timer(Elaboratable):
                     # done should appear exactly 'load' cycles
                     # load is one-based, but we stop at zero
                     m.d.sync += counter.eq(counter - 1)
-                    m.next = "RUNNING"
+                    with m.If(counter == 1):
+                        m.next = "DONE"
+                    with m.Else():
+                        m.next = "RUNNING"
 
             with m.State("RUNNING"):
                 m.d.sync += counter.eq(counter - 1)
@@ -43,7 +46,10 @@ class Timer(Elaboratable):
                     # we want the next done to appear
                     # exactly 'reload_in' cycles later
                     m.d.sync += counter.eq(self.reload_in - 1)
-                    m.next = "RUNNING"
+                    with m.If(self.reload_in == 1):
+                        m.next = "DONE"
+                    with m.Else():
+                        m.next = "RUNNING"
                 if self._allow_restart:
                     with m.Else():
                         m.next = "IDLE"
-- 
2.43.0


From 6e93e91f590b31186fee24a6b5441b4a8b780127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:50 +0000
Subject: [PATCH 15/48] fix: past value and change detection of signals wider
 than one bit

---
 amlib/utils/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amlib/utils/__init__.py b/amlib/utils/__init__.py
index 01d14d9..3f75f72 100644
--- a/amlib/utils/__init__.py
+++ b/amlib/utils/__init__.py
@@ -32,7 +32,7 @@ def _single_edge_detector(m, signal, *, domain, edge='rising'):
     """ Generates and returns a signal that goes high for a cycle upon a given edge of a given signal. """
 
     # Create a one-cycle delayed version of our input signal.
-    delayed = Signal()
+    delayed = Signal(signal.shape())
     m.d[domain] += delayed.eq(signal)
 
     # And create a signal that detects edges on the relevant signal.
@@ -52,7 +52,7 @@ def past_value_of(m, signal, *, domain):
     """ Generates and returns a signal that represents the value of another signal a cycle ago. """
 
     # Create a one-cycle delayed version of our input signal.
-    delayed = Signal()
+    delayed = Signal(signal.shape())
     m.d[domain] += delayed.eq(signal)
 
     return delayed
-- 
2.43.0


From 29967c9368815e3359e1eabcd83d61b68fd30cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:08 +0000
Subject: [PATCH 16/48] fix: WS2812 latches the transmitted colours

The reset pulse lasted a bit time instead of at least 50us, and the line
idled high, so that the LEDs never took over what they had received.
---
 amlib/io/ws2812.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/amlib/io/ws2812.py b/amlib/io/ws2812.py
index e46fe52..1278f5e 100644
--- a/amlib/io/ws2812.py
+++ b/amlib/io/ws2812.py
@@ -23,6 +23,8 @@ class WS2812(Elaboratable):
         self.full_cycle_length = sys_clock_freq // 800e3
         self.low_cycle_length  = int(0.32 * self.full_cycle_length)
         self.high_cycle_length = int(0.64 * self.full_cycle_length)
+        # at least 50us
+        self.reset_length      = int(50e-6 * sys_clock_freq) + 1
         print(f"full cycle: {self.full_cycle_length}")
 
         self.mem = Memory(width=24, depth=no_leds, name="led_memory")
@@ -51,14 +53,14 @@ class WS2812(Elaboratable):
         bit_counter = Signal(5)
         current_bit = Signal()
 
-        cycle_counter_width  = bits_for(int(self.full_cycle_length)) + 1
+        cycle_counter_width  = bits_for(max(int(self.full_cycle_length), self.reset_length)) + 1
         cycle_counter        = Signal(cycle_counter_width)
         current_cycle_length = Signal.like(cycle_counter)
 
         print(f"cycle counter: {cycle_counter_width}")
 
         m.d.comb += [
-            self.data_out.eq(1),
+            self.data_out.eq(0),
             current_bit.eq(grb[23]),
             current_cycle_length.eq(Mux(current_bit, self.high_cycle_length, self.low_cycle_length)),
             mem_write_port.addr.eq(self.led_address_in),
@@ -77,7 +79,7 @@ class WS2812(Elaboratable):
                 m.d.comb += self.data_out.eq(0)
                 m.d.sync += cycle_counter.eq(cycle_counter + 1)
 
-                with m.If(cycle_counter >= Const(self.full_cycle_length)):
+                with m.If(cycle_counter >= self.reset_length):
                     m.d.sync += cycle_counter.eq(0)
 
                     with m.If(led_counter == 0):
-- 
2.43.0


From 41cea9166866e0acd1ba6c9aa5ef8994d50c1e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:16 +0000
Subject: [PATCH 17/48] fix: logic analyser with two pretrigger samples
 captured three

---
 amlib/debug/ila.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index 79f6bed..be92921 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -139,7 +139,14 @@ class IntegratedLogicAnalyzer(Elaboratable):
                 if with_enable:
                     delayed_enable = Signal()
                     m.d.comb += delayed_enable.eq(synced_enable)
-            else: # samples_pretrigger >= 2
+            elif self.samples_pretrigger == 2:
+                # a single register, because the FIFO below delays
+                # its contents by at least two cycles
+                m.d.sync += delayed_inputs.eq(synced_inputs)
+                if with_enable:
+                    delayed_enable = Signal()
+                    m.d.sync += delayed_enable.eq(synced_enable)
+            else: # samples_pretrigger >= 3
                 capture_fifo_width = self.sample_width
                 if with_enable:
                     capture_fifo_width += 1
-- 
2.43.0


From 0af3c11762b5f0fb0feb4cbc41272377ff5b733d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:35 +0000
Subject: [PATCH 18/48] fix: logic analyser stored a gated sample repeatedly
 when triggered early

---
 amlib/debug/ila.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index be92921..2c1eacc 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -182,7 +182,9 @@ class IntegratedLogicAnalyzer(Elaboratable):
                     delayed_enable = Signal()
                     m.d.comb += [
                         pretrigger_fifo.w_data[-1].eq(synced_enable),
-                        delayed_enable.eq(pretrigger_fifo.r_data[-1]),
+                        # do not store the oldest sample repeatedly while
+                        # the pretrigger FIFO is still being filled
+                        delayed_enable.eq(pretrigger_fifo.r_data[-1] & pretrigger_filled),
                     ]
 
         else:
-- 
2.43.0


From 6fe621118ba7cb64d1065452b13c1e3c56e9ae84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:35 +0000
Subject: [PATCH 19/48] fix: StreamILA with another output domain kept sending
 after the last sample

---
 amlib/debug/ila.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index 2c1eacc..1ba1b3f 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -815,7 +815,7 @@ class StreamILA(Elaboratable):
 
 
                         # If this was the last sample, we're done! Move back to idle.
-                        with m.If(self.stream.last):
+                        with m.If(in_domain_stream.last):
                             m.next = "IDLE"
 
                     with m.Else():
-- 
2.43.0


From e33d3b98e3a7596a3dc2d8a92addcc52364629a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:35 +0000
Subject: [PATCH 20/48] fix: StreamILA offers its samples without waiting for
 ready

---
 amlib/debug/ila.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index 1ba1b3f..6f25cf8 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -804,22 +804,22 @@ class StreamILA(Elaboratable):
                     in_domain_stream.last   .eq(current_sample_number == (self.sample_depth - 1))
                 ]
 
-                # Each time the UART accepts a valid word, move on to the next one.
-                with m.If(in_domain_stream.ready):
-                    with m.If(data_valid):
-                        m.d.sync += [
-                            current_sample_number   .eq(current_sample_number + 1),
-                            data_valid              .eq(0),
-                            in_domain_stream.first  .eq(0)
-                        ]
-
+                # The sample memory takes one cycle to provide the next sample. We must not
+                # wait for ready here: consumers may wait for valid before raising it.
+                with m.If(~data_valid):
+                    m.d.sync += data_valid.eq(1)
 
-                        # If this was the last sample, we're done! Move back to idle.
-                        with m.If(in_domain_stream.last):
-                            m.next = "IDLE"
+                # Each time the UART accepts a valid word, move on to the next one.
+                with m.Elif(in_domain_stream.ready):
+                    m.d.sync += [
+                        current_sample_number   .eq(current_sample_number + 1),
+                        data_valid              .eq(0),
+                        in_domain_stream.first  .eq(0)
+                    ]
 
-                    with m.Else():
-                        m.d.sync += data_valid.eq(1)
+                    # If this was the last sample, we're done! Move back to idle.
+                    with m.If(in_domain_stream.last):
+                        m.next = "IDLE"
 
 
         # If we're not streaming out of the same domain we're capturing from,
-- 
2.43.0


From 690f8100ee913c57977160a4c8ae79c25514f0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:44 +0000
Subject: [PATCH 21/48] fix: StreamILA output domain called sync was renamed to
 the capture domain

---
 amlib/debug/ila.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index 6f25cf8..de20ab4 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -822,6 +822,10 @@ class StreamILA(Elaboratable):
                         m.next = "IDLE"
 
 
+        # Convert our sync domain to the domain requested by the user, if necessary.
+        if self.domain != "sync":
+            m = DomainRenamer(self.domain)(m)
+
         # If we're not streaming out of the same domain we're capturing from,
         # we'll add some clock-domain crossing hardware.
         if self._o_domain != self.domain:
@@ -836,11 +840,16 @@ class StreamILA(Elaboratable):
                 self.stream.last
             )
 
+            # Keep this outside of the renamed module, because
+            # the output domain may itself be called sync.
+            core, m = m, Module()
+            m.submodules.core = core
+
             # Create our async FIFO...
             m.submodules.cdc = fifo = AsyncFIFOBuffered(
                 width=len(in_domain_signals),
                 depth=16,
-                w_domain="sync",
+                w_domain=self.domain,
                 r_domain=self._o_domain
             )
 
@@ -856,10 +865,6 @@ class StreamILA(Elaboratable):
                 fifo.r_en               .eq(self.stream.ready)
             ]
 
-        # Convert our sync domain to the domain requested by the user, if necessary.
-        if self.domain != "sync":
-            m = DomainRenamer(self.domain)(m)
-
         return m
 
 class StreamILATest(GatewareTestCase):
-- 
2.43.0


From 4fc493e17eaf473b04fb2818deecb207269e7c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:44 +0000
Subject: [PATCH 22/48] fix: byte order of multi-byte samples in
 AsyncSerialILAFrontend

---
 amlib/debug/ila.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index de20ab4..6f6a222 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -1269,7 +1269,7 @@ class AsyncSerialILAFrontend(ILAFrontend):
             raw_sample    = all_samples[i:i + sample_width_bytes]
             sample_length = len(Cat(self.ila.signals))
 
-            yield bits.from_bytes(raw_sample, length=sample_length, byteorder='big')
+            yield bits.from_bytes(raw_sample, length=sample_length, byteorder='little')
 
 
     def _read_samples(self):
-- 
2.43.0


From bde7e3b3a5c0e85078e68f3dd0b03ee7a26ad581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:19 +0000
Subject: [PATCH 23/48] fix: SPI devices and the serial logic analyser in a
 domain other than sync

---
 amlib/debug/ila.py |  5 +++--
 amlib/io/spi.py    | 18 ++++++++++++++----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index 6f6a222..2603999 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -18,7 +18,6 @@ import subprocess
 from abc             import ABCMeta, abstractmethod
 
 from amaranth          import Signal, Module, Cat, Elaboratable, Memory, DomainRenamer, Mux
-from amaranth.hdl.ast  import Rose
 from amaranth.lib.cdc  import FFSynchronizer
 from amaranth.lib.fifo import SyncFIFOBuffered, AsyncFIFOBuffered
 from vcd             import VCDWriter
@@ -555,7 +554,9 @@ class SyncSerialILA(Elaboratable):
         m  = Module()
         m.submodules.ila = self.ila
 
-        transaction_start = Rose(self.spi.cs)
+        past_cs = Signal(reset_less=True)
+        m.d.sync += past_cs.eq(self.spi.cs)
+        transaction_start = self.spi.cs & ~past_cs
 
         # Connect up our SPI transciever to our public interface.
         interface = SPIDeviceInterface(
diff --git a/amlib/io/spi.py b/amlib/io/spi.py
index c0f359b..0afc57c 100644
--- a/amlib/io/spi.py
+++ b/amlib/io/spi.py
@@ -249,8 +249,13 @@ class SPIDeviceInterface(Elaboratable):
         # Generate the leading and trailing edge detectors.
         # Note that we use rising and falling edge detectors, but call these leading and
         # trailing edges, as our clock here may have been inverted.
-        leading_edge  = Rose(serial_clock, domain="sync")
-        trailing_edge = Fell(serial_clock, domain="sync")
+        # (Rose() and Fell() could not be used in another domain, because DomainRenamer
+        # does not rename the domain they sample in.)
+        past_clock = Signal(reset_less=True)
+        m.d.sync += past_clock.eq(serial_clock)
+
+        leading_edge  = serial_clock & ~past_clock
+        trailing_edge = ~serial_clock & past_clock
 
         # Determine the sample and output edges based on the SPI clock phase.
         sample_edge = trailing_edge if self.clock_phase else leading_edge
@@ -321,7 +326,10 @@ class SPIDeviceInterface(Elaboratable):
         # with clock phase 0 we need to output the first bit when chip select
         # goes active, because it will be sampled on the leading edge
         if self.clock_phase == 0:
-            with m.If(Rose(chip_selected, domain="sync")):
+            past_selected = Signal(reset_less=True)
+            m.d.sync += past_selected.eq(chip_selected)
+
+            with m.If(chip_selected & ~past_selected):
                 output_one_bit(m)
 
         with m.If(chip_selected):
@@ -560,7 +568,9 @@ class SPICommandInterface(Elaboratable):
         m = Module()
         spi = self.spi
 
-        sample_edge = Fell(spi.sck, domain="sync")
+        past_sck = Signal(reset_less=True)
+        m.d.sync += past_sck.eq(spi.sck)
+        sample_edge = ~spi.sck & past_sck
 
         # Bit counter: counts the number of bits received.
         max_bit_count = max(self.word_size, self.command_size)
-- 
2.43.0


From e40530f11d9fa12183dde53ac3489b08e8932197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:02 +0000
Subject: [PATCH 24/48] fix: initial contents of memories from bytes, and
 granularity of ROMs

---
 amlib/soc/memory.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/amlib/soc/memory.py b/amlib/soc/memory.py
index 23b9d48..1e60317 100644
--- a/amlib/soc/memory.py
+++ b/amlib/soc/memory.py
@@ -33,9 +33,12 @@ class WishboneRAM(Elaboratable):
         if not isinstance(value, bytes):
             return value
 
-        bytes_per_chunk = data_width // granularity
+        # This depends on the size of a memory word only, not on the granularity of the bus.
+        bytes_per_chunk = data_width // 8
 
-        words = (value[pos:pos + bytes_per_chunk] for pos in range(0, len(value), bytes_per_chunk))
+        # The last word may be incomplete; it is filled up with zeroes.
+        words = (value[pos:pos + bytes_per_chunk].ljust(bytes_per_chunk, b"\0")
+            for pos in range(0, len(value), bytes_per_chunk))
         return [int.from_bytes(word, byteorder=byteorder) for word in words]
 
     def __init__(self, *, addr_width, data_width=32, granularity=8, init=None,
@@ -152,7 +155,7 @@ class WishboneROM(WishboneRAM):
         super().__init__(
             addr_width=addr_width,
             data_width=data_width,
-            granularity=8,
+            granularity=granularity,
             init=data,
             read_only=True,
             name=name
-- 
2.43.0


From fc0ea96fa1ac1e1bac25f466274b580cc3250ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:01 +0000
Subject: [PATCH 25/48] fix: sequential FIR filter uses the newest sample and
 full-width taps

The first multiplication of the MAC loop read x[0] while the new sample was
only being shifted in, so the newest sample never met tap 0; and the tap
register was as wide as the samples, too narrow for larger taps.
---
 amlib/dsp/fixedpointfirfilter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/amlib/dsp/fixedpointfirfilter.py b/amlib/dsp/fixedpointfirfilter.py
index 6cdc154..ab7d8f2 100644
--- a/amlib/dsp/fixedpointfirfilter.py
+++ b/amlib/dsp/fixedpointfirfilter.py
@@ -5,6 +5,7 @@
 
 from scipy import signal
 from amaranth import *
+from amaranth.utils import bits_for
 from pprint import pformat
 import numpy as np
 
@@ -86,14 +87,15 @@ class FixedPointFIRFilter(Elaboratable):
             ix = Signal(range(n + 1))
             madd = Signal(signed(self.bitwidth))
             a = Signal(signed(self.bitwidth))
-            b = Signal(signed(self.bitwidth))
+            b = Signal(signed(max(bits_for(tap, require_sign_bit=True) for tap in self.taps)))
 
             with m.FSM(reset="IDLE"):
                 with m.State("IDLE"):
                     with m.If(self.enable_in):
                         m.d.sync += [
                             ix.eq(1),
-                            a.eq(x[0]),
+                            # the new sample is only being shifted into x[0] at this moment
+                            a.eq(self.signal_in),
                             b.eq(taps[0]),
                             madd.eq(0)
                         ]
-- 
2.43.0


From 0aaf66e852be7d3b081fbb1c81f87ab1f1722c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:01 +0000
Subject: [PATCH 26/48] fix: sequential half-band filter pairs the right
 samples, full-width taps

The first pair was read while the samples were being shifted, so it was one
sample late against all others; the tap register was too narrow when the
fraction is wider than the samples.
---
 amlib/dsp/fixedpointhbfilter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/amlib/dsp/fixedpointhbfilter.py b/amlib/dsp/fixedpointhbfilter.py
index ce33b54..ee90917 100644
--- a/amlib/dsp/fixedpointhbfilter.py
+++ b/amlib/dsp/fixedpointhbfilter.py
@@ -5,6 +5,7 @@
 
 from scipy import signal
 from amaranth import *
+from amaranth.utils import bits_for
 from pprint import pformat
 import numpy as np
 
@@ -75,14 +76,15 @@ class FixedPointHBFilter(Elaboratable):
             ix = Signal(range(n + 2))
             madd = Signal(signed(self.bitwidth + 1))
             a = Signal(signed(self.bitwidth + 1))
-            b = Signal(signed(self.bitwidth))
+            b = Signal(signed(max(bits_for(tap, require_sign_bit=True) for tap in self.taps)))
 
             with m.FSM(reset="IDLE"):
                 with m.State("IDLE"):
                     with m.If(self.strobe_in):
                         m.d.sync += [
                             ix.eq(2),
-                            a.eq(x[0] + x[n - 1]),
+                            # the samples are only being shifted at this moment
+                            a.eq(self.signal_in + x[n - 2]),
                             b.eq(taps[0]),
                             madd.eq(0)
                         ]
-- 
2.43.0


From f18ce62d430a8b5a508c7451bc5192418a9fc1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:17 +0000
Subject: [PATCH 27/48] fix: resampler loses no samples under back-pressure and
 offers without waiting for ready

The upsampler kept counting while the FIFO was full, so its results were
dropped, and valid was only raised while the consumer was ready.
---
 amlib/dsp/resampler.py | 38 ++++++++++++++++----------------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/amlib/dsp/resampler.py b/amlib/dsp/resampler.py
index 07c4618..0e502cb 100644
--- a/amlib/dsp/resampler.py
+++ b/amlib/dsp/resampler.py
@@ -84,8 +84,9 @@ class FractionalResampler(Elaboratable):
             input_ready.eq((upsample_counter == 0) & (downsamplefifo.w_rdy)),
             input_data.eq(self.signal_in.payload.as_signed()),
             antialiasingfilter.signal_in.eq(upsampled_signal),
-            antialiasingfilter.enable_in.eq(upsample_counter > 0),
-            downsamplefifo.w_en.eq(downsamplefifo.w_rdy & antialiasingfilter.enable_in),
+            # upsampling pauses while there is no space for its results
+            antialiasingfilter.enable_in.eq((upsample_counter > 0) & downsamplefifo.w_rdy),
+            downsamplefifo.w_en.eq(antialiasingfilter.enable_in),
         ]
 
         with m.If(input_valid & input_ready):
@@ -94,36 +95,29 @@ class FractionalResampler(Elaboratable):
                 antialiasingfilter.enable_in.eq(1),
             ]
             m.d.sync += upsample_counter.eq(self.upsample_factor - 1)
-        with m.Elif(upsample_counter > 0):
+        with m.Elif((upsample_counter > 0) & downsamplefifo.w_rdy):
             m.d.comb += upsampled_signal.eq(0)
             m.d.sync += upsample_counter.eq(upsample_counter - 1)
 
         # downsampling and output
         downsample_counter = Signal(range(self.downsample_factor))
 
-        m.d.comb += [
-            downsamplefifo.w_data.eq(antialiasingfilter.signal_out),
-            self.signal_out.valid.eq(downsamplefifo.r_rdy),
-        ]
-
-        with m.If(downsamplefifo.r_rdy & self.signal_out.ready):
-            m.d.comb += downsamplefifo.r_en.eq(1)
+        m.d.comb += downsamplefifo.w_data.eq(antialiasingfilter.signal_out)
 
-            with m.If(downsample_counter == 0):
+        with m.If(downsample_counter == 0):
+            m.d.comb += [
+                self.signal_out.payload.eq(downsamplefifo.r_data),
+                self.signal_out.valid.eq(downsamplefifo.r_rdy),
+                downsamplefifo.r_en.eq(self.signal_out.ready),
+            ]
+            with m.If(downsamplefifo.r_rdy & self.signal_out.ready):
                 m.d.sync += downsample_counter.eq(self.downsample_factor - 1)
-                m.d.comb += [
-                    self.signal_out.payload.eq(downsamplefifo.r_data),
-                    self.signal_out.valid.eq(1),
-                ]
-            with m.Else():
-                m.d.sync += downsample_counter.eq(downsample_counter - 1)
-                m.d.comb += self.signal_out.valid.eq(0)
 
         with m.Else():
-            m.d.comb += [
-                downsamplefifo.r_en.eq(0),
-                self.signal_out.valid.eq(0),
-            ]
+            # the samples in between are discarded
+            m.d.comb += downsamplefifo.r_en.eq(1)
+            with m.If(downsamplefifo.r_rdy):
+                m.d.sync += downsample_counter.eq(downsample_counter - 1)
 
         return m
 
-- 
2.43.0


From e9c8c498ea1f76ffddd624a0c030ca4909f69ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:46 +0000
Subject: [PATCH 28/48] fix: negative taps of the convolver do not change their
 neighbours

Taps sharing a memory word were added up with their sign, so each negative
one borrowed one from the tap stored above it.
---
 amlib/dsp/convolution/mac.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amlib/dsp/convolution/mac.py b/amlib/dsp/convolution/mac.py
index b20a128..9c53074 100644
--- a/amlib/dsp/convolution/mac.py
+++ b/amlib/dsp/convolution/mac.py
@@ -91,12 +91,13 @@ class StereoConvolutionMAC(Elaboratable):
 
         taps_fp_mod = []
         taps2_fp_mod = []
+        tap_mask = (1 << self._bitwidth) - 1 # a negative tap must not borrow from its neighbours
         for i in range(0, self._tapcount, self._slices):
             val1 = 0
             val2 = 0
             for j in range(self._slices):
-                val1 += int(taps_fp[i+j]) << (self._slices - j - 1) * self._bitwidth
-                val2 += int(taps2_fp[i+j]) << (self._slices - j - 1) * self._bitwidth
+                val1 += (int(taps_fp[i+j]) & tap_mask) << (self._slices - j - 1) * self._bitwidth
+                val2 += (int(taps2_fp[i+j]) & tap_mask) << (self._slices - j - 1) * self._bitwidth
             taps_fp_mod.append(val1)
             taps2_fp_mod.append(val2)
 
-- 
2.43.0


From c12427c14f4a07414ee9696151a8f2e738d36663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:30 +0000
Subject: [PATCH 29/48] fix: convolver finishes frames for every number of taps
 per slice

The tap index counts to samples-per-slice + 1, which did not fit when that is
a power of two: the convolver never left the MAC state.
---
 amlib/dsp/convolution/mac.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/dsp/convolution/mac.py b/amlib/dsp/convolution/mac.py
index 9c53074..f4be738 100644
--- a/amlib/dsp/convolution/mac.py
+++ b/amlib/dsp/convolution/mac.py
@@ -119,7 +119,7 @@ class StereoConvolutionMAC(Elaboratable):
         set1 = Signal()
         set2 = Signal()
         output_channels = Signal(2)
-        ix = Signal(range(self._samples_per_slice + 1))
+        ix = Signal(range(self._samples_per_slice + 2))
 
         previous_sample1 = Signal(self._size_of_slizes)
         previous_sample2 = Signal.like(previous_sample1)
-- 
2.43.0


From 20516c65caed65a928104e3e561a37d3d7ec0ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:44 +0000
Subject: [PATCH 30/48] fix: convolver offers its output until it is taken

A sample was shown for one cycle after ready had been seen, so it was lost
when the consumer stalled just then, and a consumer waiting for valid before
raising ready never got anything.
---
 amlib/dsp/convolution/mac.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/amlib/dsp/convolution/mac.py b/amlib/dsp/convolution/mac.py
index f4be738..7c79acc 100644
--- a/amlib/dsp/convolution/mac.py
+++ b/amlib/dsp/convolution/mac.py
@@ -149,7 +149,6 @@ class StereoConvolutionMAC(Elaboratable):
         ]
 
         m.d.sync += [
-            self.signal_out.valid.eq(0),
             samples1_write_port.en.eq(0),
             samples2_write_port.en.eq(0),
 
@@ -283,16 +282,18 @@ class StereoConvolutionMAC(Elaboratable):
                     ix.eq(0),
                 ]
 
-                with m.If(output_channels == 2):
-                    m.next = "IDLE"
-                with m.Elif(self.signal_out.ready):
-                    m.d.sync += [
-                        output_channels.eq(output_channels + 1),
-                        self.signal_out.payload.eq(Mux(output_channels == 0, sumSignalL >> self._bitwidth, sumSignalR >> self._bitwidth)),
-                        self.signal_out.valid.eq(1),
-                        self.signal_out.first.eq(~output_channels),
-                        self.signal_out.last.eq(output_channels),
-                    ]
+                # offer each channel until it is taken
+                m.d.comb += [
+                    self.signal_out.payload.eq(Mux(output_channels == 0, sumSignalL >> self._bitwidth, sumSignalR >> self._bitwidth)),
+                    self.signal_out.valid.eq(1),
+                    self.signal_out.first.eq(~output_channels),
+                    self.signal_out.last.eq(output_channels),
+                ]
+
+                with m.If(self.signal_out.ready):
+                    m.d.sync += output_channels.eq(output_channels + 1)
+                    with m.If(output_channels == 1):
+                        m.next = "IDLE"
 
         return m
 
-- 
2.43.0


From d27be5b4732f1171daa4db901f8dd0a8be66d4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:51 +0000
Subject: [PATCH 31/48] fix: FFT window load stores each entry at its own place

The window was stored rotated by one entry, its data was taken a cycle after
the strobe, and all imaginary parts went to address 0.
---
 amlib/dsp/fixedpointfft.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/amlib/dsp/fixedpointfft.py b/amlib/dsp/fixedpointfft.py
index 5c57ff9..cf9451e 100644
--- a/amlib/dsp/fixedpointfft.py
+++ b/amlib/dsp/fixedpointfft.py
@@ -143,10 +143,6 @@ class FixedPointFFT(Elaboratable):
 
         # Window write
         wfidx = Signal(range(self.pts+1))
-        m.d.comb += [
-            wFr_wr.data.eq(self.wf_real),
-            wFi_wr.data.eq(self.wf_imag),
-        ]
 
         # FFT
         widx = Signal(N)
@@ -222,13 +218,16 @@ class FixedPointFFT(Elaboratable):
                     m.d.sync += wfidx.eq(0)
                     m.next = "DONE"
                 with m.Else():
-                    m.d.sync += wfidx.eq(wfidx+1)
                     m.next = "WINDOW_WR"
 
             with m.State("WINDOW_WR"):
                 with m.If(self.wf_strobe):
                     m.d.sync += [
+                        wFr_wr.data.eq(self.wf_real),
+                        wFi_wr.data.eq(self.wf_imag),
                         wFr_wr.addr.eq(wfidx),
+                        wFi_wr.addr.eq(wfidx),
+                        wfidx.eq(wfidx+1),
                         wFr_wr.en.eq(1),
                         wFi_wr.en.eq(1),
                     ]
-- 
2.43.0


From b737b40cc8aee049507f23011af956f8cce22dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:51 +0000
Subject: [PATCH 32/48] fix: FFT reads out every bin

The memory was sampled a cycle before its data for the new address was there,
so every bin came out one position late and the last one never.
---
 amlib/dsp/fixedpointfft.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/amlib/dsp/fixedpointfft.py b/amlib/dsp/fixedpointfft.py
index cf9451e..84d534b 100644
--- a/amlib/dsp/fixedpointfft.py
+++ b/amlib/dsp/fixedpointfft.py
@@ -421,7 +421,10 @@ class FixedPointFFT(Elaboratable):
                             xr_rd.addr.eq(idx),
                             xi_rd.addr.eq(idx),
                         ]
-                    m.next = "READOUT"
+                    m.next = "OUTPUT_LATCHED"
+
+            with m.State("OUTPUT_LATCHED"):
+                m.next = "READOUT"
 
             with m.State("READOUT"):
                 with m.If(N & 1):
-- 
2.43.0


From a03031c50bea7f8e2e4c643fc8c5c9ab3b3d1fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:40 +0000
Subject: [PATCH 33/48] fix: SPI controller in a domain other than sync

Rose() and Fell() always sampled in the domain sync, whatever domain the
controller was moved to, so a transfer never started there.
---
 amlib/io/spi.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/amlib/io/spi.py b/amlib/io/spi.py
index 0afc57c..92eee88 100644
--- a/amlib/io/spi.py
+++ b/amlib/io/spi.py
@@ -10,7 +10,6 @@ import unittest
 
 from amaranth          import Signal, Module, Cat, Elaboratable, Record, Mux
 from amaranth.build    import Platform
-from amaranth.hdl.ast  import Rose, Fell
 from amaranth.hdl.rec  import DIR_FANIN, DIR_FANOUT
 from amaranth.lib.cdc  import FFSynchronizer
 
@@ -128,15 +127,23 @@ class SPIControllerInterface(Elaboratable):
             self.word_complete.eq(spi_device.word_complete),
         ]
 
-        leading_edge  = Rose if not self.clock_polarity else Fell
-        trailing_edge = Fell if not self.clock_polarity else Rose
-
         # with clock phase 0 the first bit is sampled on the first leading edge, so the device
         # has to be selected on the trailing edge before it, half a clock period earlier
-        if self.clock_phase == 0:
-            clock_edge = trailing_edge(sck_divider.clock_out, domain="sync")
+        clock = sck_divider.clock_out
+        if self.clock_phase == 1:
+            for i in range(self.divisor//8):
+                delayed_clock = Signal(name=f"delayed_clock_{i}", reset_less=True)
+                m.d.sync += delayed_clock.eq(clock)
+                clock = delayed_clock
+
+        past_clock = Signal(reset_less=True)
+        m.d.sync += past_clock.eq(clock)
+
+        # leading edges rise if the polarity is 0
+        if self.clock_phase == self.clock_polarity:
+            clock_edge = ~clock & past_clock
         else:
-            clock_edge = leading_edge(sck_divider.clock_out, clocks=self.divisor//8, domain="sync")
+            clock_edge = clock & ~past_clock
 
         with m.FSM() as fsm:
             m.d.comb += [
-- 
2.43.0


From c892dc0050e9fbfe17078c18b7f4a2a97331f171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:44 +0000
Subject: [PATCH 34/48] fix: arbiter keeps to a producer offering a partially
 valid word

---
 amlib/stream/arbiter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/stream/arbiter.py b/amlib/stream/arbiter.py
index c740349..2acf825 100644
--- a/amlib/stream/arbiter.py
+++ b/amlib/stream/arbiter.py
@@ -132,7 +132,7 @@ class StreamArbiter(Elaboratable):
         #
 
         # Only change which stream we're working with when the active stream stops transmitting.
-        with m.If(~active_stream.valid):
+        with m.If(~active_stream.valid.any()):
 
             # Assume we're idle until proven otherwise.
             m.d.comb += self.idle.eq(1)
-- 
2.43.0


From c2618f8b04fb0e37a5de6b5cff2b38d2fa7151a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:31 +0000
Subject: [PATCH 35/48] fix: WS2812 bit timing at clocks that are no multiple
 of 800 kHz

---
 amlib/io/ws2812.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/amlib/io/ws2812.py b/amlib/io/ws2812.py
index 1278f5e..dd26959 100644
--- a/amlib/io/ws2812.py
+++ b/amlib/io/ws2812.py
@@ -20,9 +20,10 @@ class WS2812(Elaboratable):
     def __init__(self, *, sys_clock_freq, no_leds):
         # parameters
         self.no_leds           = no_leds
-        self.full_cycle_length = sys_clock_freq // 800e3
-        self.low_cycle_length  = int(0.32 * self.full_cycle_length)
-        self.high_cycle_length = int(0.64 * self.full_cycle_length)
+        bit_cycles             = sys_clock_freq / 800e3
+        self.full_cycle_length = round(bit_cycles)
+        self.low_cycle_length  = round(0.32 * bit_cycles)
+        self.high_cycle_length = round(0.64 * bit_cycles)
         # at least 50us
         self.reset_length      = int(50e-6 * sys_clock_freq) + 1
         print(f"full cycle: {self.full_cycle_length}")
-- 
2.43.0


From 0e1382d23a3e52287198193577be6973e43a1b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:56 +0000
Subject: [PATCH 36/48] fix: windowed FIR design takes the cutoff in Hz

firwin got the cutoff divided by the sample rate together with fs, which put
it at a fraction of one Hertz: a low pass had no pass band, a high pass passed
everything.
---
 amlib/dsp/fixedpointfirfilter.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/amlib/dsp/fixedpointfirfilter.py b/amlib/dsp/fixedpointfirfilter.py
index ab7d8f2..4df0c17 100644
--- a/amlib/dsp/fixedpointfirfilter.py
+++ b/amlib/dsp/fixedpointfirfilter.py
@@ -28,8 +28,7 @@ class FixedPointFIRFilter(Elaboratable):
         self.signal_out = Signal(signed(bitwidth))
 
         if type(cutoff_freq) == int:
-            cutoff = cutoff_freq / samplerate
-            taps = signal.firwin(filter_order, cutoff, fs=samplerate, pass_zero=filter_type, window='hamming')
+            taps = signal.firwin(filter_order, cutoff_freq, fs=samplerate, pass_zero=filter_type, window='hamming')
         elif type(cutoff_freq) == list and len(cutoff_freq) == 2:
             Fs = samplerate
             Fpb = cutoff_freq[0]
@@ -50,7 +49,7 @@ class FixedPointFIRFilter(Elaboratable):
 
         if verbose:
             if type(cutoff_freq) == int:
-                print(f"{filter_order}-order windowed FIR with cutoff: {cutoff * samplerate}")
+                print(f"{filter_order}-order windowed FIR with cutoff: {cutoff_freq}")
             else:
                 print(f"{filter_order}-order FIR with start/stop band: {cutoff_freq} weight: {weight}")
             print(f"taps: {pformat(taps)}")
-- 
2.43.0


From 1958be22a4e594dc1435ad80342825736916ecc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:56 +0000
Subject: [PATCH 37/48] fix: resampler with more than 16 bits gives its filter
 enough fraction bits

---
 amlib/dsp/resampler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amlib/dsp/resampler.py b/amlib/dsp/resampler.py
index 0e502cb..56a100a 100644
--- a/amlib/dsp/resampler.py
+++ b/amlib/dsp/resampler.py
@@ -63,6 +63,7 @@ class FractionalResampler(Elaboratable):
             Filterbank(self.filter_instances,
                        self.input_samplerate * self.upsample_factor,
                        bitwidth=headroom_bitwidth,
+                       fraction_width=max(18, headroom_bitwidth),
                        filter_structure=self.filter_structure,
                        cutoff_freq=self.filter_cutoff,
                        filter_order=self.filter_order,
-- 
2.43.0


From 8e3517406dba1cab574dfa071c2c964df7ef7cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:14 +0000
Subject: [PATCH 38/48] fix: synchronous serial analyser honours cs_idles_high

The documented parameter was accepted and ignored.
---
 amlib/debug/ila.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index 2603999..bb116ab 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -508,6 +508,7 @@ class SyncSerialILA(Elaboratable):
 
         self.clock_phase = clock_phase
         self.clock_polarity = clock_polarity
+        self.cs_idles_high = cs_idles_high
 
         # Extract the domain from our keyword arguments, and then translate it to sync
         # before we pass it back below. We'll use a DomainRenamer at the boundary to
@@ -554,15 +555,19 @@ class SyncSerialILA(Elaboratable):
         m  = Module()
         m.submodules.ila = self.ila
 
-        past_cs = Signal(reset_less=True)
-        m.d.sync += past_cs.eq(self.spi.cs)
-        transaction_start = self.spi.cs & ~past_cs
+        selected = Signal()
+        m.d.comb += selected.eq(~self.spi.cs if self.cs_idles_high else self.spi.cs)
+
+        past_selected = Signal(reset_less=True)
+        m.d.sync += past_selected.eq(selected)
+        transaction_start = selected & ~past_selected
 
         # Connect up our SPI transciever to our public interface.
         interface = SPIDeviceInterface(
             word_size=self.bits_per_sample,
             clock_polarity=self.clock_polarity,
-            clock_phase=self.clock_phase
+            clock_phase=self.clock_phase,
+            cs_idles_high=self.cs_idles_high
         )
         m.submodules.spi = interface
         m.d.comb += [
@@ -577,7 +582,7 @@ class SyncSerialILA(Elaboratable):
 
         # Our first piece of data is latched in when the transaction
         # starts, so we'll move on to sample #1.
-        with m.If(self.spi.cs):
+        with m.If(selected):
             with m.If(transaction_start):
                 m.d.sync += current_sample_number.eq(1)
 
@@ -586,7 +591,7 @@ class SyncSerialILA(Elaboratable):
             with m.Elif(interface.word_accepted):
                 m.d.sync += current_sample_number.eq(current_sample_number + 1)
 
-        # Whenever CS is low, we should be providing the very first sample,
+        # Whenever we're not selected, we should be providing the very first sample,
         # so reset our sample counter to 0.
         with m.Else():
             m.d.sync += current_sample_number.eq(0)
-- 
2.43.0


From 20ac13c13a05fd8e29cff6a31fcce0ac10e94e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:23 +0000
Subject: [PATCH 39/48] fix: analyser save file shows the sample clock only if
 it was dumped

---
 amlib/debug/ila.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index bb116ab..fbb1318 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -1212,7 +1212,8 @@ class ILAFrontend(metaclass=ABCMeta):
             gtkw.dumpfile(dump_filename)
 
             # If we're adding a clock, add it to the top of the view.
-            gtkw.trace('ila.ila_clock')
+            if add_clock:
+                gtkw.trace('ila.ila_clock')
 
             # Gain more screen space by collapsing the signal tree
             gtkw.sst_expanded(False)
@@ -1237,7 +1238,7 @@ class ILAFrontend(metaclass=ABCMeta):
             vcd_filename = os.path.join(tempfile.gettempdir(), os.urandom(24).hex() + '.vcd')
             gtkw_filename = os.path.join(tempfile.gettempdir(), os.urandom(24).hex() + '.gtkw')
 
-            self.emit_vcd(vcd_filename, gtkw_filename=gtkw_filename)
+            self.emit_vcd(vcd_filename, gtkw_filename=gtkw_filename, add_clock=add_clock)
             subprocess.run(["gtkwave", "-f", vcd_filename, "-a", gtkw_filename])
         finally:
             os.remove(vcd_filename)
-- 
2.43.0


From 064c3f04911e2de7cdc4f08a8b083547aea07f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:23 +0000
Subject: [PATCH 40/48] fix: CIC filter wrapped around to the most negative
 value at positive full scale

---
 amlib/dsp/fixedpointcicfilter.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/amlib/dsp/fixedpointcicfilter.py b/amlib/dsp/fixedpointcicfilter.py
index f4aaea3..fcdd4ab 100644
--- a/amlib/dsp/fixedpointcicfilter.py
+++ b/amlib/dsp/fixedpointcicfilter.py
@@ -57,7 +57,9 @@ class FixedPointCICFilter(Elaboratable):
         m = Module()
 
         n = self.stage
-        width = self.delay_width
+        # one more bit than the largest magnitude needs, so that a sum of
+        # nothing but ones doesn't wrap around to the most negative value
+        width = self.delay_width + 1
         integrator_edge = self.strobe_in
         comb_edge = Signal()
         decimate_counter = Signal(range(0, self.decimation))
@@ -71,6 +73,11 @@ class FixedPointCICFilter(Elaboratable):
         y = Array(Signal(signed(width), name=f"y{i}") for i in range(n))
         dy = Array(Signal(signed(width), name=f"dy{i}") for i in range(n))
 
+        # positive full scale is clipped to the largest output value
+        result = Signal(signed(self.bitwidth + 1))
+        result_max = 2**(self.bitwidth - 1) - 1
+        m.d.comb += result.eq(y[n - 1] >> (self.delay_width - self.bitwidth))
+
         m.d.sync += self.strobe_out.eq(comb_edge)
 
         with m.If(integrator_edge):
@@ -86,7 +93,7 @@ class FixedPointCICFilter(Elaboratable):
         with m.If(comb_edge):
             m.d.sync += y[0].eq(x[n - 1] - dy[0])
             m.d.sync += [y[i + 1].eq(y[i] - dy[i + 1]) for i in range(n - 1)]
-            m.d.sync += self.signal_out.eq(y[n - 1] >> (width - self.bitwidth))
+            m.d.sync += self.signal_out.eq(Mux(result > result_max, result_max, result))
             m.d.sync += dy[0].eq(x[n - 1])
             m.d.sync += [dy[i + 1].eq(y[i]) for i in range(n - 1)]
             m.d.sync += comb_edge.eq(0)
-- 
2.43.0


From 6e77aec1979b67d6c1dfae183de6681aea705ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:28 +0000
Subject: [PATCH 41/48] fix: hexadecimal digit D was displayed like 0 on seven
 segment displays

---
 amlib/io/led.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/io/led.py b/amlib/io/led.py
index 3b133a7..30744ea 100644
--- a/amlib/io/led.py
+++ b/amlib/io/led.py
@@ -24,7 +24,7 @@ seven_segment_font = [
 seven_segment_hex_numbers = [
   ['0', 0b1111110], ['1', 0b0110000], ['2', 0b1101101], ['3', 0b1111001], ['4', 0b0110011],
   ['5', 0b1011011], ['6', 0b1011111], ['7', 0b1110000], ['8', 0b1111111], ['9', 0b1111011],
-  ['A', 0b1110111], ['b', 0b0011111], ['C', 0b1001110], ['D', 0b1111110], ['E', 0b1001111], ['F', 0b1000111],
+  ['A', 0b1110111], ['b', 0b0011111], ['C', 0b1001110], ['d', 0b0111101], ['E', 0b1001111], ['F', 0b1000111],
 ]
 
 class NibbleToSevenSegmentHex(Elaboratable):
-- 
2.43.0


From db436d41cee2bbbdab35f58c80d6ad9f76c28d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:28 +0000
Subject: [PATCH 42/48] fix: registered seven segment decoder showed the dots
 one cycle before the digits

---
 amlib/io/led.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/io/led.py b/amlib/io/led.py
index 30744ea..e3628f8 100644
--- a/amlib/io/led.py
+++ b/amlib/io/led.py
@@ -63,8 +63,8 @@ class NumberToSevenSegmentHex(Elaboratable):
             digit_to_hex = NibbleToSevenSegmentHex()
             m.submodules += digit_to_hex
             domain = m.d.sync if self.register else m.d.comb
+            m.d.comb += digit_to_hex.nibble_in.eq(self.number_in[(i * 4):(i * 4 + 4)])
             domain += [
-                digit_to_hex.nibble_in.eq(self.number_in[(i * 4):(i * 4 + 4)]),
                 self.seven_segment_out[(i * 8):(i * 8 + 7)].eq(digit_to_hex.seven_segment_out),
                 self.seven_segment_out[(i * 8) + 7].eq(self.dots_in[i])
             ]
-- 
2.43.0


From 58fb7f146af3be53819fe935d436cadf144c2b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:28 +0000
Subject: [PATCH 43/48] fix: maximum value of a bar display did not fit its
 input if it is a power of two

---
 amlib/io/led.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/io/led.py b/amlib/io/led.py
index e3628f8..ba142ae 100644
--- a/amlib/io/led.py
+++ b/amlib/io/led.py
@@ -88,7 +88,7 @@ class NumberToBitBar(Elaboratable):
         self.bitbar   = [Const(int(2**n - 1), bitwidth_out) for n in range(bitwidth_out + 1)]
 
         # I/O
-        self.value_in   = Signal(range(maxvalue_in))
+        self.value_in   = Signal(range(maxvalue_in + 1))
         self.bitbar_out = Signal(bitwidth_out)
 
     def elaborate(self, platform: Platform) -> Module:
-- 
2.43.0


From 67c85787ff83c4cb0a2262d41ebf0e0732550e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:28 +0000
Subject: [PATCH 44/48] fix: analyser dump on standard output was interspersed
 with messages

---
 amlib/debug/ila.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index fbb1318..0ee4eb7 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -1166,7 +1166,7 @@ class ILAFrontend(metaclass=ABCMeta):
 
             # Create named values for each of our signals.
             for signal in self.ila.signals:
-                print(f"register signal {signal.name} with size {len(signal)}, signed: {signal.signed}")
+                print(f"register signal {signal.name} with size {len(signal)}, signed: {signal.signed}", file=sys.stderr)
                 signals[signal.name] = writer.register_var('ila', signal.name, 'integer', size=len(signal))
 
             # Dump the each of our samples into the VCD.
-- 
2.43.0


From 9f5b05424ed5f0db128ff4f848beff0467ea365b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:42 +0000
Subject: [PATCH 45/48] fix: show the right digits on displays beyond the 32nd
 module

---
 amlib/io/max7219.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/io/max7219.py b/amlib/io/max7219.py
index ff2843a..4bb73f6 100644
--- a/amlib/io/max7219.py
+++ b/amlib/io/max7219.py
@@ -125,7 +125,7 @@ class SerialLEDArray(Elaboratable):
                     with m.Case(0):
                         for module in range(self.no_modules):
                             m.d.sync += [
-                                spi_controller.word_out[(0 + module * 16):(8  + module * 16)].eq(current_digits[Const(module * 8, 8) + digit_counter]),
+                                spi_controller.word_out[(0 + module * 16):(8  + module * 16)].eq(current_digits[Const(module * 8) + digit_counter]),
                                 spi_controller.word_out[(8 + module * 16):(16 + module * 16)].eq((digit_counter + 1)[0:8]),
                             ]
                             m.d.comb += next_step.eq(1)
-- 
2.43.0


From 29bed703c69da7ae1d9c9ac405dc678470f2c635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:15 +0000
Subject: [PATCH 46/48] fix: start up after LED display initial delays longer
 than 2^24 cycles

---
 amlib/io/max7219.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amlib/io/max7219.py b/amlib/io/max7219.py
index 4bb73f6..cc9055a 100644
--- a/amlib/io/max7219.py
+++ b/amlib/io/max7219.py
@@ -6,6 +6,7 @@ from enum import IntEnum
 
 from amaranth import *
 from amaranth.build import Platform
+from amaranth.utils import bits_for
 from amaranth.compat.fhdl.structure import Repl
 
 from .spi     import SPIControllerBus, SPIControllerInterface
@@ -58,7 +59,7 @@ class SerialLEDArray(Elaboratable):
         current_digits = Array(Signal(8, name=f"current_digit{n}") for n in range(8 * self.no_modules))
 
         m.submodules.init_delay = init_delay = \
-            Timer(width=24, load=int(self.init_delay), reload=0, allow_restart=False)
+            Timer(width=bits_for(int(self.init_delay)), load=int(self.init_delay), reload=0, allow_restart=False)
 
         m.submodules.spi_controller = spi_controller = SPIControllerInterface(word_size=16 * self.no_modules, divisor=self.divisor, cs_idles_high=True)
 
-- 
2.43.0


From c2935b6b3a3d2bee85ca6ccb0e0995831fb0c738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:26 +0000
Subject: [PATCH 47/48] fix: consider only the generated clock in the I2C
 initiator without clock stretching

start and stop looked at the clock input even with clk_stretch=False,
so no (repeated) start or stop appeared on a bus whose clock input is
not connected.
---
 amlib/io/i2c.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/amlib/io/i2c.py b/amlib/io/i2c.py
index 44810f6..c575d2c 100644
--- a/amlib/io/i2c.py
+++ b/amlib/io/i2c.py
@@ -121,6 +121,9 @@ class I2CInitiator(Module):
         timer = Signal(max=period_cyc)
         stb   = Signal()
 
+        # without clock stretching, only the internally generated clock is considered
+        scl_i = bus.scl_i if clk_stretch else bus.scl_o
+
         self.sync += [
             If((timer == 0) | ~self.busy,
                 timer.eq(period_cyc // 4)
@@ -170,19 +173,19 @@ class I2CInitiator(Module):
                 # the end of the last operation is not visible yet, so requests are ignored
                 NextValue(self.busy, 0)
             ).Elif(self.start,
-                If(bus.scl_i & bus.sda_i & bus.sda_o,
+                If(scl_i & bus.sda_i & bus.sda_o,
                     NextState("START-SDA-L")
-                ).Elif(~bus.scl_i,
+                ).Elif(~scl_i,
                     NextState("START-SCL-H")
-                ).Elif(bus.scl_i,
+                ).Elif(scl_i,
                     NextState("START-SCL-L")
                 )
             ).Elif(self.stop,
-                If(bus.scl_i & ~bus.sda_o,
+                If(scl_i & ~bus.sda_o,
                     NextState("STOP-SDA-H")
-                ).Elif(~bus.scl_i,
+                ).Elif(~scl_i,
                     NextState("STOP-SCL-H")
-                ).Elif(bus.scl_i,
+                ).Elif(scl_i,
                     NextState("STOP-SCL-L")
                 )
             ).Elif(self.write,
-- 
2.43.0


From b61b739f0bffe58f4e15866b4b768976b23ed049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:32 +0000
Subject: [PATCH 48/48] fix: leave out extra fields of a stream that are to be
 omitted

---
 amlib/stream/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/amlib/stream/__init__.py b/amlib/stream/__init__.py
index 2df6991..d84101f 100644
--- a/amlib/stream/__init__.py
+++ b/amlib/stream/__init__.py
@@ -75,7 +75,9 @@ class StreamInterface(Record):
         assignments = []
 
         if omit:
-            rhs_fields = [field for field in rhs_fields if field not in omit]
+            # extra fields are tuples that start with the name
+            rhs_fields = [field for field in rhs_fields
+                if (field if isinstance(field, str) else field[0]) not in omit]
             lhs_fields = [field for field in lhs_fields if field not in omit]
 
 
-- 
2.43.0

