#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as Python because it is easier to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Stream arbitration delivers every producer's bursts whole and in order",
 "When several producers share one output stream, every item a producer hands over (valid while its ready is high) appears exactly once on the output with its data and markers unchanged and in that producer's order; nothing is invented or lost. The output never leaves a producer while that producer keeps offering items, while the output is free (showing nothing) it goes next to the highest-priority producer offering at that moment (the priority multiplexer follows the highest-priority offering producer at every moment), and the idle indication is given exactly when no producer is offering anything. A producer that keeps offering is served within a bounded number of cycles once higher-priority producers stop and the consumer accepts.",
 ["schedules", "configurations", "histories", "crash_points"],
 "every number of producers, every pattern of valid on each producer and of ready on the consumer, every burst length, and a reset of the arbiter at any cycle",
 "No test instantiates the arbiter or the multiplexer with competing producers; the interleavings of valid and ready are unbounded.",
 ["amlib/stream/arbiter.py", "amlib/stream/__init__.py"],
 [("active stream selection", "amlib/stream/arbiter.py:StreamArbiter.elaborate"), ("priority multiplexer", "amlib/stream/arbiter.py:StreamMultiplexer.elaborate")],
 [("active stream index", "which producer currently owns the output")], ["source stream", "idle", "ready of every sink"])

prop("C02", "FIFO and stream connections neither lose, duplicate nor reorder items",
 "Items pushed through a stream-to-FIFO connection and read back through a FIFO-to-stream connection come out once each, in order, with data and, where requested, the first and last markers intact, for every pattern of producer gaps and consumer stalls and for a FIFO that fills and empties. An item is accepted exactly when the FIFO has room, and a stalled output keeps presenting the same item until it is taken. Connecting two streams (or tapping one) transfers payload, valid, first and last forward and, for a connection, ready backward, with no item altered or back-pressure ignored; further fields of a stream go along, and a field that is to be omitted is left alone.",
 ["schedules", "histories", "configurations"],
 "every payload width, FIFO depth, valid/ready schedule and marker placement, including a FIFO held full or empty for any time",
 "The connection helpers have no tests of their own; the hand-over rules matter only on particular valid/ready interleavings.",
 ["amlib/stream/__init__.py"],
 [("stream to FIFO", "amlib/stream/__init__.py:connect_stream_to_fifo"), ("FIFO to stream", "amlib/stream/__init__.py:connect_fifo_to_stream"), ("stream connection", "amlib/stream/__init__.py:StreamInterface.attach / stream_eq / tap")])

prop("C03", "Constant generators and serializers emit exactly the requested data",
 "After a start request, a constant-data generator emits exactly the bytes of its table from the requested start position up to the end of the table or the requested maximum length, whichever comes first (a start position beyond the table selects its last entry), and a serializer emits exactly the requested number of table entries; each item is presented until accepted, the first and last markers are on the first and last item only, multi-byte words are in the configured byte order with the valid mask covering exactly the bytes inside the limit. Completion is signalled once per emission, only after its last item was accepted, and a later start repeats correctly; a request for no data emits nothing.",
 ["schedules", "inputs", "configurations", "histories", "crash_points"],
 "every table content and length, data width, byte order, start position, maximum length, consumer stall pattern, start timing and sequence of restarts",
 "Tests use two tables with a consumer that is nearly always ready; start positions, limits and stalls interact combinatorially.",
 ["amlib/stream/generator.py"],
 [("generator state machine", "amlib/stream/generator.py:ConstantStreamGenerator.elaborate"), ("serializer", "amlib/stream/generator.py:StreamSerializer.elaborate")])

prop("C04", "Packet-list streaming sends each packet once, whole, framed and in order",
 "Each time it is started, the packet-list streamer emits every packet of its list exactly once, in order, each byte once, with the first marker on exactly the first and the last marker on exactly the last byte of each packet, for any pattern of consumer stalls. Completion is signalled only after the last byte of the last packet was accepted, and a later start sends the complete list again.",
 ["schedules", "inputs", "configurations", "histories", "crash_points"],
 "every list of packets (lengths from one byte up, mixed lengths), every consumer stall pattern, start pulses held or repeated, and reset at any cycle",
 "The single test sends a fixed list to an always-ready consumer.",
 ["amlib/stream/generator.py"],
 [("packet sequencing", "amlib/stream/generator.py:PacketListStreamer.elaborate")])

prop("C05", "The transactional FIFO behaves as a queue with atomic commit and rollback",
 "Every word read is the oldest committed word not yet consumed or read in the current read transaction: uncommitted writes are never visible to the reader, discarding writes removes exactly the writes since the last commit, discarding reads makes exactly the reads since the last commit readable again in the same order, and space is only freed by committing reads. Full, empty and available-space indications always agree with that queue, writes when full and reads when empty have no effect, and no word is lost, duplicated or reordered for any concurrent mix of operations on both sides (commit and discard of the same side are not requested together).",
 ["schedules", "histories", "inputs", "configurations", "crash_points"],
 "every depth, width and sequence of simultaneous write, read, commit and discard operations on both sides, at every fill level including wrap-around",
 "One test walks a fixed script on a single depth; wrap-around together with rollback at full and empty is not reached.",
 ["amlib/utils/fifo.py"],
 [("transactional pointers", "amlib/utils/fifo.py:TransactionalizedFIFO.elaborate")],
 [("committed and current pointers", "positions the two sides roll back to")], ["read_data", "empty", "full", "space_available"])

prop("C06", "UART stream transmitters put every accepted byte on the line exactly once",
 "Every byte (or, for the multi-byte transmitter, every byte of each word, least significant byte first) accepted by the transmitter appears on the line exactly once and in order as one start bit, eight data bits least significant first and at least one stop bit, each lasting exactly the configured number of clock cycles. The line rests at the idle level between frames, driving is indicated for every frame, the idle indication is never given while a frame is in progress or an accepted byte still waits, and an offered byte is accepted within a bounded time. The memory-mapped variant transmits each written byte once and acknowledges a write only when it was taken.",
 ["schedules", "inputs", "configurations", "histories", "crash_points"],
 "every divisor, word width, byte sequence and producer gap pattern, and reset at any cycle",
 "The tests check one divisor and a few bytes; back-to-back boundaries depend on when the producer offers the next byte.",
 ["amlib/stream/uart.py"],
 [("bit timing and framing", "amlib/stream/uart.py:UARTTransmitter.elaborate"), ("word splitting", "amlib/stream/uart.py:UARTMultibyteTransmitter.elaborate"), ("bus front-end", "amlib/stream/uart.py:UARTTransmitterPeripheral.elaborate")])

prop("C07", "The serial receiver reports every frame once with exact error flags",
 "For every well-formed frame on the line, with a sender whose bit time deviates within the sampling tolerance and with any phase, the receiver delivers the data bits once, in order, without error flags; a frame with a wrong parity bit is flagged as a parity error, a frame whose start or stop bit has the wrong level as a framing error, and frames with both are not reported as correct. A frame that completes while the consumer is not acknowledging is flagged as an overflow and does not replace the word on offer; the flag clears when a later frame is taken. After any disturbance the receiver reports later well-formed frames correctly once the line has been idle for a frame time.",
 ["inputs", "schedules", "fault_sequences", "configurations", "crash_points"],
 "every divisor, data width, parity mode, sequence of words, sender skew and phase, consumer acknowledge timing, and line faults (glitches, breaks, corrupted bits, truncated frames)",
 "Tests send a handful of hand-written frames at one divisor with ideal timing.",
 ["amlib/io/serial.py"],
 [("receiver state machine", "amlib/io/serial.py:AsyncSerialRX.elaborate")], None, ["data", "rdy", "err"])

prop("C08", "The serial transmitter and full-duplex link carry words unchanged",
 "Every word accepted by the transmitter is sent once, in order, as start bit, data bits least significant first, the configured parity bit and stop bit, each exactly one configured bit time long; the line is idle otherwise, and the next word starts only after the previous stop bit has lasted its full time. Two full-duplex transceivers connected to each other deliver every accepted word once, in order and without error in both directions, for clocks within tolerance, and a divisor change made while idle takes effect from the next word on.",
 ["inputs", "schedules", "fault_sequences", "configurations", "crash_points"],
 "every divisor, data width, parity mode, word sequence, producer gap pattern and clock skew between the two sides",
 "Tests loop back one byte per parity mode.",
 ["amlib/io/serial.py"],
 [("transmitter state machine", "amlib/io/serial.py:AsyncSerialTX.elaborate"), ("transceiver", "amlib/io/serial.py:AsyncSerial.elaborate")])

prop("C09", "The SPI device exchanges whole words in every mode despite aborted transfers",
 "For every clock polarity, clock phase, bit order, word size and chip-select polarity, each complete word shifted by a controller while the device is selected is reported once with the bits received, and the bits returned on the output are those of the word offered for transmission when that word began. Clock edges while deselected have no effect, and a transfer cut short by deselection reports no word and leaves no stale bits in the next transfer.",
 ["inputs", "schedules", "fault_sequences", "configurations", "crash_points"],
 "every configuration, word sequence, controller clock speed within the documented ratio, phase between clocks, deselection after any number of bits, and clock activity while deselected",
 "Tests drive one word in each of a few modes with the clock aligned to the system clock.",
 ["amlib/io/spi.py"],
 [("sampling and shifting", "amlib/io/spi.py:SPIDeviceInterface.elaborate")])

prop("C10", "SPI command transactions deliver exact commands, data and responses",
 "In every transaction the command reported is exactly the first command-length bits received, once per complete command; the response shifted out after it is exactly the word presented for that command, and the data word received is reported once, only when all of its bits have arrived. A transaction that ends early reports nothing for the incomplete part, and the next transaction starts clean; the idle and stalled indications reflect whether a transaction is in progress or waiting for deselection.",
 ["inputs", "schedules", "fault_sequences", "configurations", "crash_points"],
 "every command and word size, bit pattern, clock timing, transaction length (short, exact, excess) and deselection point",
 "One test sends one command and one word of one size.",
 ["amlib/io/spi.py"],
 [("command state machine", "amlib/io/spi.py:SPICommandInterface.elaborate")])

prop("C11", "SPI register accesses are atomic: aborted or foreign accesses change nothing",
 "A register holds its reset value until a complete write transaction to its address finishes; then it holds exactly the written value and its write strobe pulses once, and no other register changes. A read returns the value the register had when its command was received, pulses that register's read strobe once per completed read, and an unknown address returns the default value; transactions that end before their last bit, writes to read-only or unknown addresses, and reads change no register.",
 ["inputs", "schedules", "fault_sequences", "configurations", "histories", "crash_points"],
 "every register layout, address and data width, history of reads and writes, abort point and clock timing",
 "Tests perform a few accesses on one layout and one abort point.",
 ["amlib/io/spi.py"],
 [("register decode", "amlib/io/spi.py:SPIRegisterInterface.elaborate, add_register, add_read_only_register, add_sfr"), ("command layer", "amlib/io/spi.py:SPICommandInterface.elaborate")])

prop("C12", "The SPI controller and bus multiplexer drive correct, non-interfering buses",
 "For every word started, the controller selects the device, produces exactly one clock pulse per bit at the configured rate with the correct idle level, presents each output bit and samples each input bit on the proper edges for its mode, reports the received word once at the end and deselects; nothing toggles while idle and starts during a transfer are ignored. The multiplexer puts exactly the selected device's output on the shared line, so that unselected devices neither take part in a transfer nor disturb the data seen by the controller.",
 ["inputs", "schedules", "configurations", "crash_points"],
 "every divisor, word length, mode, word sequence, start timing and device selection history",
 "Tests only instantiate one mode, or nothing at all for the multiplexer.",
 ["amlib/io/spi.py"],
 [("controller", "amlib/io/spi.py:SPIControllerInterface.elaborate"), ("bus sharing", "amlib/io/spi.py:SPIMultiplexer.elaborate")])

prop("C13", "The I2C initiator performs exactly the requested bus operations, legally",
 "Each accepted request (start, stop, write, read; the latter three inside a transaction) produces exactly that operation on the bus: start and stop conditions, eight data bits most significant first plus acknowledge, with data changing only while the clock is low except for start and stop, and start and stop conditions at least a quarter of the clock period away from the neighbouring clock edges and from each other; a write reports the target's acknowledge and a read returns the byte on the bus and sends the requested acknowledge. The initiator waits for a target that stretches the clock, never drives a line high, is busy from acceptance until the operation finished and ignores requests meanwhile, and finishes every operation in a bounded time once stretching ends. Where clock stretching is disabled, only the generated clock counts: the level of the clock input makes no difference.",
 ["inputs", "schedules", "fault_sequences", "configurations", "histories", "crash_points"],
 "every operation sequence, data byte, clock period, acknowledge, stretch duration and position, request timing, and reset at any cycle",
 "Tests exercise single operations with one clock period and one stretch length.",
 ["amlib/io/i2c.py"],
 [("initiator state machine", "amlib/io/i2c.py:I2CInitiator.elaborate"), ("bus sampling", "amlib/io/i2c.py:I2CBus.elaborate")])

prop("C14", "The I2C target answers only its address and reports transfers exactly",
 "The target acknowledges exactly the transactions carrying its own address and stays off the bus for all others; for its own it reports start (or restart), each byte written, each byte requested and the stop, once each and in order, acknowledges a written byte only when the application accepts it, and puts exactly the offered byte on the bus when read, until the controller refuses more, which is reported as the end of the transaction. A start or stop condition at any bit position resynchronises it, so that later transactions are handled correctly.",
 ["inputs", "schedules", "fault_sequences", "histories", "crash_points"],
 "every own address, controller transaction sequence, acknowledge choice, read data, bus timing, and start or stop injected at any bit",
 "Tests drive one scripted transaction per feature with ideal timing.",
 ["amlib/io/i2c.py"],
 [("target state machine", "amlib/io/i2c.py:I2CTarget.elaborate")])

prop("C15", "Stream packets become exactly one I2C transaction each, byte for byte",
 "Each packet accepted by the stream-to-I2C transmitter appears on the bus as one transaction: a start condition, every byte of the packet once and in order, then one stop condition; no bytes from another packet or from an empty buffer are ever inserted. Producer gaps, a filling buffer and targets that refuse bytes or stretch the clock never lose, duplicate, split or merge packets or leave the bus claimed after the packet ended.",
 ["inputs", "schedules", "fault_sequences", "histories", "crash_points"],
 "every packet length, producer gap pattern (including gaps inside a packet longer than a byte time), bus speed, buffer depth and target behaviour",
 "There is a single test that offers one complete packet without gaps.",
 ["amlib/stream/i2c.py", "amlib/io/i2c.py"],
 [("packet state machine", "amlib/stream/i2c.py:I2CStreamTransmitter.elaborate")])

prop("C16", "The I2S link carries samples of both channels in order and reports underflow",
 "With a transmitter and a receiver on the same I2S clocks (oversampled, with at least as many bit clocks per word as the format needs), every stereo frame accepted by the transmitter is put on the line once, left before right, most significant bit first and aligned as the selected format requires, and is delivered once by the receiver with the same samples and channel markers, for every producer and consumer stall pattern that keeps the buffers from running empty or full. A transmitter with nothing to send reports underflow and sends silence without upsetting channel alignment, a wrongly marked channel is reported as a mismatch, and the fill-level indications agree with the number of buffered samples; a transmitter whose buffer has room takes a sample at once.",
 ["inputs", "schedules", "fault_sequences", "configurations", "crash_points"],
 "every sample width, format, serial clock ratio and phase, sample sequence, stall pattern, underflow point and marker error",
 "The only tests loop a few samples at one width and ratio.",
 ["amlib/io/i2s.py"],
 [("transmit path", "amlib/io/i2s.py:I2STransmitter.elaborate"), ("receive path", "amlib/io/i2s.py:I2SReceiver.elaborate")])

prop("C17", "The LED display driver initialises every module and then shows the digits",
 "After reset the display driver first sends each configuration command of its initialisation sequence to every cascaded module, once per module and latched together, and then keeps refreshing digit by digit so that every module's digit register receives the value requested for it. Every latch pulse follows exactly one complete word per cascaded module, most significant bit first on the serial clock at the configured rate, and a changed digit is shown within one refresh round.",
 ["inputs", "configurations", "schedules", "crash_points"],
 "every number of cascaded modules, clock divisor, digit content, change of digits at any cycle, and reset at any cycle",
 "The only test runs the driver without checking what a display would latch.",
 ["amlib/io/max7219.py"],
 [("initialisation and refresh", "amlib/io/max7219.py:SerialLEDArray.elaborate"), ("serial engine", "amlib/io/spi.py:SPIControllerInterface.elaborate")])

prop("C18", "The LED strip driver sends every LED's stored colour with legal bit timing",
 "After each start, the strip driver, with the line low for at least the latch time before, sends for every LED in order exactly the colour stored for it, green, red, blue, most significant bit first, encoding each bit as a high then low pulse whose durations identify the bit within the LED's timing limits and never long enough low to latch early. It then holds the line low for at least the latch time and signals completion once, only after that; a start while busy does not disturb the running transmission.",
 ["inputs", "configurations", "schedules", "crash_points"],
 "every number of LEDs, system clock, colour content, write timing relative to transmission, start timing, and reset at any cycle",
 "There is one smoke test that asserts nothing about the line.",
 ["amlib/io/ws2812.py"],
 [("bit timing", "amlib/io/ws2812.py:WS2812.elaborate")])

prop("C19", "The debouncer reports one press and one release per real button action",
 "However long and erratically the raw contact bounces, the debounced state changes only after the contact has stayed in the new state without interruption for the full debounce interval, and it does change within a bounded time after that. Each change of the debounced state produces exactly one event of the right kind (press or release), events alternate, and bounces shorter than the interval produce none.",
 ["inputs", "schedules", "fault_sequences", "crash_points"],
 "every bounce pattern and duration, glitches at any point of the interval, and reset at any cycle",
 "The interval is tens of thousands of cycles and no test drives a bounce pattern through it.",
 ["amlib/io/debouncer.py"],
 [("counter and events", "amlib/io/debouncer.py:Debouncer.elaborate")])

prop("C20", "Timers expire after exactly the programmed time and only when programmed",
 "A timer started with a non-zero value signals completion exactly that many cycles later and once per start, for every value from one up; with a reload value present at completion it goes on signalling at exactly that period, and without one it returns to idle or, if restarting is not allowed, stays complete. The load value takes precedence over the reload value when starting, a zero value never starts, start strobes and new load values during the countdown do not disturb it, and the visible count is the value to be started while idle and the remaining time while running.",
 ["schedules", "inputs", "configurations", "crash_points"],
 "every width, load, reload and restart setting, start strobes and changes of the load and reload values at any cycle, and reset at any cycle",
 "The existing tests cover one load value each and in part cannot run.",
 ["amlib/utils/timer.py"],
 [("countdown", "amlib/utils/timer.py:Timer.elaborate")])

prop("C21", "Clock dividers and dividing counters keep exact ratios for every enable pattern",
 "The clock divider, while enabled, produces a clock whose half periods are exactly the configured number of cycles from its configured idle polarity, and while disabled returns to and rests at that polarity. The dividing counter advances once for every divisor enabled cycles, wraps at its top value, reports the count and division points consistently, and gives the same result however the enable is gated.",
 ["schedules", "configurations", "crash_points"],
 "every divisor, top value, polarity, and enable or reset pattern",
 "Tests cover one divisor with enable held high.",
 ["amlib/utils/clockdivider.py", "amlib/utils/dividingcounter.py"],
 [("divider", "amlib/utils/clockdivider.py:SimpleClockDivider.elaborate"), ("counter", "amlib/utils/dividingcounter.py:DividingCounter.elaborate")])

prop("C22", "Edge, pulse and clock-crossing helpers neither miss nor invent events",
 "Edge detectors signal exactly the requested transitions, once each, with the registered past value following the input by exactly the stated delay; an edge-to-pulse converter emits exactly one pulse per edge of its input. A strobe stretched to a number of cycles stays asserted for exactly that time after its last occurrence, and a signal synchronised into another clock domain equals the source delayed by the configured number of destination clock edges (an object that knows how to synchronise itself is asked to do so, with the same domain and number of stages), for every ratio and phase of the clocks.",
 ["schedules", "inputs", "configurations", "crash_points"],
 "every input pattern, stretch length, synchroniser depth, clock ratio and phase",
 "Tests use one input pattern per helper in a single clock domain.",
 ["amlib/utils/cdc.py", "amlib/utils/edgetopulse.py", "amlib/utils/__init__.py"],
 [("edge detection", "amlib/utils/__init__.py"), ("strobe stretching", "amlib/utils/cdc.py:stretch_strobe_signal"), ("synchroniser", "amlib/utils/cdc.py:synchronize"), ("pulse generation", "amlib/utils/edgetopulse.py:EdgeToPulse.elaborate")])

prop("C23", "Shift registers, line encoders and sequence generators follow their definition",
 "For every pattern of load, shift and clear requests, the shift registers hold and emit exactly the bits defined by the accepted operations, in the configured direction and most significant or least significant first, a load taking precedence over shifting and a clear over both; the NRZI encoder toggles its output exactly on the defined input value. The pseudo-random generator advances exactly once per enabled cycle through the sequence of its polynomial, never reaching a dead state, and the one-hot multiplexer presents exactly the selected input and passes the output's back signals to every input.",
 ["schedules", "inputs", "configurations", "crash_points"],
 "every width, direction, polynomial, and sequence of load, shift, clear and enable at any cycle",
 "Tests use one width and one scripted sequence.",
 ["amlib/utils/shiftregister.py", "amlib/utils/nrziencoder.py", "amlib/utils/lfsr.py", "amlib/utils/bus.py"],
 [("shift registers", "amlib/utils/shiftregister.py"), ("encoder", "amlib/utils/nrziencoder.py"), ("LFSR", "amlib/utils/lfsr.py"), ("bus multiplexing", "amlib/utils/bus.py:OneHotMultiplexer.elaborate")])

prop("C24", "A logic-analyser capture is the exact signal history around the trigger",
 "After a trigger while idle, the analyser stores exactly its configured number of consecutive samples of the observed signals, beginning the configured number of cycles before the trigger, and signals completion when the last one is stored; when sampling is gated by the enable input, only the samples of enabled cycles of that window and after it are stored, each once (a trigger given before the history is complete may also bring in up to the pre-trigger number of earlier enabled samples). Triggers during a capture do not disturb it and a later trigger records a fresh capture. Reading any position returns the stored sample for that position in time order, and the stored samples stay unchanged until the next trigger.",
 ["schedules", "inputs", "configurations", "histories", "crash_points"],
 "every set of observed signals, depth, pre-trigger length, enable gating, trigger timing (including repeated, early and back-to-back triggers) and read order",
 "Tests capture once with two pre-trigger lengths; the phase between trigger, enable and history is never varied.",
 ["amlib/debug/ila.py"],
 [("capture engine", "amlib/debug/ila.py:IntegratedLogicAnalyzer.elaborate")])

prop("C25", "Analyser read-out hands the host the captured samples, complete and aligned",
 "Through each read-out link (synchronous serial, stream with or without clock crossing, asynchronous serial) the host receives every captured sample once, in order and correctly aligned for its width, followed by nothing else, for every transfer speed, stall pattern and clock ratio; an interrupted synchronous read-out does not misalign the next one. Decoding the received data with the host-side parser yields, per signal, exactly the values and times captured.",
 ["schedules", "inputs", "configurations", "fault_sequences", "crash_points"],
 "every signal set and depth, byte padding, stream stall pattern, clock ratio, serial divisor, and read-out interrupted at any bit",
 "No test covers the links end to end with stalls, different clock domains or interrupted transfers.",
 ["amlib/debug/ila.py", "amlib/stream/uart.py", "amlib/io/spi.py"],
 [("synchronous read-out", "amlib/debug/ila.py:SyncSerialILA.elaborate"), ("stream read-out", "amlib/debug/ila.py:StreamILA.elaborate"), ("serial read-out", "amlib/debug/ila.py:AsyncSerialILA.elaborate"), ("host decoding", "amlib/debug/ila.py:ILAFrontend")])

prop("C26", "Interrupt events are latched once, held until acknowledged and masked exactly",
 "Every occurrence of an event of the configured kind (level, rising or falling edge) sets its pending flag, which stays set until software acknowledges it; an event arriving in the same cycle as an acknowledge is not lost, and acknowledging one event never clears another. The interrupt line is raised exactly when some event is both pending and enabled, and the register interface reads back the true status, pending and enable values.",
 ["schedules", "histories", "configurations", "crash_points"],
 "every mix of event kinds, event timing, and bus accesses at any cycle relative to the events",
 "The package has no tests.",
 ["amlib/soc/event.py", "amlib/soc/peripheral.py"],
 [("event latching", "amlib/soc/event.py:InterruptSource.elaborate"), ("register bank and bridge", "amlib/soc/peripheral.py")])

prop("C27", "On-chip memories return the last value written to each byte, once per request",
 "Every bus read of a memory returns, for each byte, the value of the latest preceding write that selected that byte, or the initial content if there was none; writes change only the selected bytes of the addressed word and a read-only memory never changes. Every request is acknowledged exactly once after it was made, and no acknowledge appears without a request, for every spacing of requests and for requests withdrawn early.",
 ["schedules", "histories", "configurations", "crash_points"],
 "every size, data width, granularity, initial content, access sequence and request timing",
 "The package has no tests.",
 ["amlib/soc/memory.py"],
 [("bus handshake", "amlib/soc/memory.py:WishboneRAM.elaborate / WishboneROM")])

prop("C28", "The UART peripheral moves bytes between registers and line without loss",
 "Every byte software writes to the transmit register while the peripheral is enabled and reports room is sent on the line once and in order, and every well-formed frame received while the receive buffer has room is delivered to software once and in order; ready, empty and full indications and the corresponding events agree with the buffers' contents. A changed divisor register takes effect, and neither direction disturbs the other.",
 ["schedules", "histories", "configurations", "fault_sequences", "crash_points"],
 "every byte sequence, register access timing, buffer depth, divisor and line activity, including overrun of either buffer",
 "The package has no tests.",
 ["amlib/soc/uart.py", "amlib/io/serial.py"],
 [("register/FIFO glue", "amlib/soc/uart.py:UARTPeripheral.elaborate")])

prop("C29", "Digital filters compute the exact fixed-point response however samples arrive",
 "For every filter kind (FIR in parallel and sequential form, IIR, half-band, CIC, and chains of them) the sequence of output samples equals the fixed-point reference response to the sequence of accepted input samples with the filter's own rounded coefficients, and depends only on that sequence, never on the spacing of the sample strobes within the filter's stated throughput. Decimating filters produce exactly one output per the configured number of inputs, and equivalent implementations of the same filter produce equal results.",
 ["inputs", "schedules", "configurations", "crash_points"],
 "every coefficient set, bit width, order, sample sequence (including full-scale extremes), and enable or strobe spacing",
 "The tests plot or print responses of one filter and assert little; strobes are evenly spaced.",
 ["amlib/dsp/fixedpointfirfilter.py", "amlib/dsp/fixedpointiirfilter.py", "amlib/dsp/fixedpointhbfilter.py", "amlib/dsp/fixedpointcicfilter.py", "amlib/dsp/filterbank.py"],
 [("FIR", "amlib/dsp/fixedpointfirfilter.py:FixedPointFIRFilter.elaborate"), ("IIR", "amlib/dsp/fixedpointiirfilter.py:FixedPointIIRFilter.elaborate"), ("half band", "amlib/dsp/fixedpointhbfilter.py:FixedPointHBFilter.elaborate"), ("CIC", "amlib/dsp/fixedpointcicfilter.py:FixedPointCICFilter.elaborate"), ("filter bank", "amlib/dsp/filterbank.py:Filterbank.elaborate")])

prop("C30", "The resampler delivers exactly the resampled sequence under any back-pressure",
 "For every accepted input sequence, the resampler's output is the reference up-sampled, filtered and down-sampled sequence, with upsample-factor over downsample-factor samples per input, each delivered exactly once and in order. Producer gaps and consumer stalls change only the timing: no output is dropped, repeated or altered, and every accepted input is processed within a bounded time while the consumer accepts.",
 ["inputs", "schedules", "configurations", "crash_points"],
 "every ratio, sample sequence, producer gap pattern and consumer stall pattern, and reset at any cycle",
 "The test feeds one tone to a consumer that is always ready.",
 ["amlib/dsp/resampler.py", "amlib/dsp/fixedpointiirfilter.py"],
 [("rate conversion", "amlib/dsp/resampler.py:FractionalResampler.elaborate")])

prop("C31", "The stereo convolver outputs the exact convolution of each accepted frame",
 "For every accepted stereo frame the convolver delivers exactly one output frame (left marked first, right marked last) equal to the fixed-point convolution of the samples so far with the taps for the configured mode (mono, stereo or cross-feed), for any producer gaps and consumer stalls. Frames are never dropped, repeated or swapped between channels, an offered sample stays until it is accepted, and the result does not depend on how the work is divided between multipliers. As many of them work in parallel as the ratio of clock and sample rate asks for, so that apart from a fixed overhead a frame takes no longer than a sample period.",
 ["inputs", "schedules", "configurations", "fault_sequences", "crash_points"],
 "every tap set, mode, bit width, number of taps and sample sequence, and every valid/ready schedule",
 "Tests run one short tap set per mode with nearly fixed timing.",
 ["amlib/dsp/convolution/mac.py"],
 [("multiply-accumulate engine", "amlib/dsp/convolution/mac.py:StereoConvolutionMAC.elaborate")])

prop("C32", "The FFT returns the windowed transform of exactly the samples supplied",
 "After a start, the transform consumes exactly the configured number of strobed samples, multiplies each by its own entry of the loaded window, and then produces each spectral bin once, in natural order, equal to the reference transform within the fixed-point error bound, and signals completion. The result depends only on the samples and window, not on strobe spacing or on what was computed before, and a new transform can be started after completion.",
 ["inputs", "schedules", "configurations", "histories", "crash_points"],
 "every supported size, sample content, window, strobe spacing and sequence of transforms, and reset at any cycle",
 "The tests run one size and one tone with strobes at a fixed spacing.",
 ["amlib/dsp/fixedpointfft.py"],
 [("load, butterfly and output sequencing", "amlib/dsp/fixedpointfft.py:FixedPointFFT.elaborate")])

prop("C33", "Reset at any moment returns every core to its power-on behaviour",
 "For every core, asserting the reset of its clock domains for a few clock edges (as many as its synchronisers are long) at any moment of any activity makes it behave from then on as a freshly powered-up core would given the same inputs: nothing that was stored, counted, half received or half sent before has any effect. Only the contents of addressable memories may survive.",
 ["crash_points", "histories", "configurations"],
 "every core of the library, every activity before the reset, and every cycle for the reset",
 "No test ever asserts a reset.",
 ["amlib/stream", "amlib/utils", "amlib/io", "amlib/dsp", "amlib/debug/ila.py"],
 [("state registers of all cores", "amlib/**")])

prop("C34", "Bit-string values behave as fixed-width bit vectors",
 "Constructing, slicing, concatenating, comparing, inverting and combining bit strings follows fixed-width bit-vector arithmetic, with conversions to and from integers, strings and bytes being mutual inverses.",
 ["inputs"], "every bit string and operation",
 "Tests list examples.",
 ["amlib/utils/bits.py"], [("value type", "amlib/utils/bits.py:bits")])

prop("C35", "Seven-segment and bar displays show the value they are given",
 "The seven-segment decoder lights exactly the segments of each hexadecimal digit and each dot it is given; with its register option, digits and dots of the same input appear together, and change at clock edges only. The bar display lights the lowest positions: none at or below the minimum, all of them at the maximum and only there, between one and all but one otherwise, never fewer for a larger number, and in proportion to the number where the range is large.",
 ["inputs", "configurations", "schedules"], "every sequence of input values, including changes between clock edges, resets, and every width and range",
 "Tests cover one range of the bar display and nothing of the seven-segment decoder.",
 ["amlib/io/led.py"], [("decoders", "amlib/io/led.py")])

prop("C36", "A core works alike in every clock domain, driven by that domain's clock alone",
 "Placing a core in another clock domain (with Amaranth's DomainRenamer, or with its own domain parameter where it has one) changes nothing about its behaviour: all its other guarantees hold there, and a clock of any other name, running at any rate or standing still, has no influence on it.",
 ["configurations", "schedules", "inputs"],
 "every core of the library, every activity, and every relation between the core's clock and an unrelated clock called sync",
 "Tests run every core in the domain sync only.",
 ["amlib/stream", "amlib/utils", "amlib/io", "amlib/dsp", "amlib/debug/ila.py", "amlib/soc"],
 [("edge detectors and submodules of all cores", "amlib/**")])

prop("C37", "A filter's frequency response is the one its parameters specify",
 "A filter built for a sample rate, cutoff frequency, order and type passes and attenuates tones as the design it names does at those frequencies: a windowed or equiripple FIR, a Chebyshev IIR, a half-band filter or a bank of several, low pass or high pass, in its parallel or its sequential form. This holds for tones of every frequency and any phase below overload, at any spacing of the sample strobes, whatever was filtered before.",
 ["inputs", "configurations", "schedules", "histories"],
 "every filter kind, sample rate, cutoff, order, type and number of instances, every tone and sequence of tones, every strobe spacing",
 "The tests feed square waves and assert nothing about what comes out; one configuration of each filter.",
 ["amlib/dsp/fixedpointfirfilter.py", "amlib/dsp/fixedpointiirfilter.py", "amlib/dsp/fixedpointhbfilter.py", "amlib/dsp/filterbank.py"],
 [("FIR design", "amlib/dsp/fixedpointfirfilter.py:FixedPointFIRFilter.__init__"), ("IIR design", "amlib/dsp/fixedpointiirfilter.py:FixedPointIIRFilter.__init__"), ("half band design", "amlib/dsp/fixedpointhbfilter.py:FixedPointHBFilter.__init__"), ("bank", "amlib/dsp/filterbank.py:Filterbank.__init__")])

prop("C38", "Cores in one design work independently of each other",
 "Two cores of the same kind, with equal or with different parameters, can be built into one design, and each then behaves exactly as it does when it is the only one: the same inputs give the same outputs on the same cycles of its clock, whatever the other core is configured for, is fed, or is in the middle of, and however their activity interleaves. Building one core changes nothing about another that was built before or is built after it: no table, coefficient set, list of ports or state is shared.",
 ["schedules", "configurations", "histories"],
 "every pair of configurations of every core, every order of building them, every interleaving of their clock cycles, every pair of input histories",
 "Every test builds one core, alone, and drives it on a single schedule.",
 ["amlib/dsp/fixedpointfirfilter.py", "amlib/stream/generator.py", "amlib/utils/fifo.py", "amlib/utils/cdc.py"],
 [("FIR design", "amlib/dsp/fixedpointfirfilter.py:FixedPointFIRFilter.__init__"), ("IIR design", "amlib/dsp/fixedpointiirfilter.py:FixedPointIIRFilter.__init__"), ("FFT tables", "amlib/dsp/fixedpointfft.py:FixedPointFFT.elaborate"), ("arbiter", "amlib/stream/arbiter.py:StreamArbiter.__init__"), ("register file", "amlib/io/spi.py:SPIRegisterInterface.add_register")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
