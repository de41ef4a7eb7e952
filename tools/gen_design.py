import json,os,sys
sys.path.insert(0,'/verif')
HEAD = r'''# Design: deterministic simulation with fault injection for amlib

## 1. What amlib is, and what can go wrong in it

amlib is a library of gateware cores written in Amaranth: streams and their arbiters, generators and FIFOs,
serial/SPI/I2C/I2S interfaces, display drivers, timers and clock-domain helpers, a logic analyser with its
host-side read-out, on-chip memories, interrupt controllers and a UART peripheral, and fixed-point DSP blocks.
Every core is a synchronous machine that talks to others by hand-shakes.  What a user relies on (nothing lost,
duplicated or reordered; exact timing; clean behaviour after an abort, a reset, or a stall) depends on *when*
things happen: on which cycle the peer is ready, where a transfer is cut, how two clocks interleave.

So the nondeterminism of this codebase is:

| source | seam | who decides |
|---|---|---|
| which clock edge happens next, in which domain, simultaneous edges, stopped clocks | the clock slots of Amaranth's RTL interpreter | the plan |
| every input of the core: valid/ready, requests, data, serial lines, open-drain lines | input signals | the plan, or a peer model driven by the plan |
| crash (reset) at any cycle, for any number of edges | the reset signal of every domain | the plan |
| aborted transfers, glitches, wrong parity/stop/start bits, breaks, clock skew, stretched clocks, refused bytes, withdrawn requests, stalled consumers, starved producers, overruns | peer models | the plan |
| host side I/O (pyserial) | a stand-in port object | the plan |

There are no threads, files, wall clocks or randomness inside the library, so nothing else can vary.  **No hooks
in /repo were needed**: the seams exist (every clock, reset and input is a signal).  `MANIFEST.json` lists no hooks.

## 2. The simulator

`dst/bench.py` elaborates the *real* code of `/repo` (imported from the working tree, so a change is seen at
once; Amaranth has no build step) and runs it on Amaranth's own RTL interpreter (`PySimEngine`).  No Amaranth clock or
coroutine process is ever added: the only way time advances is `Bench.tick(*domains)`, which raises exactly the
named clocks (all in the same instant), lets the design settle, and lowers them.  Inputs are set and outputs read
directly.  Reset (= crash) is a slot too.  A combinational loop that does not settle is a violation.

`dst/core.py` is the runner:

* A **scenario** gives `configs` (elaboration-time parameters), `gen(rng, cfg)` -> *plan*, and `run(ctx, cfg, plan, R)`.
  The plan is plain JSON (lists of numbers: gaps, stalls, data, where to cut, when to reset, which clock ticks).  `run` is
  a pure function of configuration and plan, so **one seed is one exactly repeatable execution**; plan generation uses
  `random.Random("seed/property/scenario/config/run-index")`, which depends neither on hash seeds nor on the number of
  workers.
* Invariants are checked in every simulated cycle; histories (what went over a line, what was delivered) are decoded
  and compared with a small reference model during and after the run.  Liveness is "within N cycles" with an N computed
  from the configuration, once stalls and faults stop.
* Every event is hashed into a digest.  Every 50th run is executed twice and the digests compared; a difference is a
  harness error (exit 2), never a verdict.  `tools/determinism.py` compares digests of whole runs across hash seeds and
  worker counts (section 7).
* On a violation the plan is **minimised** by delta debugging (cutting plan entries, then shrinking numbers) while the
  same kind of violation remains, and written to `replays/<id>-<scenario>-<seed>.json` with its digest;
  `run.py --replay FILE` executes exactly that plan and says whether the digest is identical.
* An exception raised by repository code (at elaboration or in the host-side classes) is a violation; one raised by the
  harness is exit 2.
* Evidence: runs, runs per hour, simulated cycles and the time they stand for, faults injected by kind, runs with and without
  faults, distinct digests, distinct abstract states (model state combined with simultaneous interface signals), which
  classes ran for real and which peers were modelled.

Fault-free runs are part of every scenario (the fault rates are drawn per run and are often zero), so that a fault never
hides an ordinary error.

The decision is by seeded search and never by enumeration; that is stated as the level ("exploration") of every
claim.  A quiet check means: no violation in the explored runs.

### Stubs

* `dst/stubs/amaranth_soc`, `dst/stubs/lambdasoc`: the packages that `amlib.soc` and `amlib.debug` import are not
  installed and cannot be fetched.  The stand-ins give Wishbone/CSR records, memory maps, a minimal CSR decoder/bridge and an IRQ
  line.  Judged through them are only amlib's own parts (register bank composition, event logic, memories, UART peripheral).
* Peers: line senders/receivers, SPI controllers and devices, open-drain I2C lines with stretching targets, I2S codecs, MAX7219
  chains, WS2812 strips, stream producers and consumers, a serial port.

### Judging behaviour, not text

Checks touch public ports and documented attributes only, with two exceptions that are elaboration facts (coefficients a filter
object reports, the parser metadata of the front end).  Registers, state names and internal signals are never looked at.

## 3. Properties and how each is decided

All but C34 are decided by the method; quick commands take 5-80 s each on 8 cores, thorough ones up to an hour
(`DST_DEADLINE`, default 480 s quick and 3300 s thorough, only guards against slow machines; runs it cuts are
reported as `runs_skipped_by_deadline`).

'''
D = {}
D['C01']=("A cycle-accurate hand-over reference: per producer a queue of offered items, per cycle the set of offering producers.  Invariants each cycle: the output carries exactly the item of one offering producer, only that producer sees ready, ownership does not change while its owner offers, next owner is the highest-priority offering one when the output is free, idle iff nobody offers.  End: every accepted item delivered once, in order; bounded service.","2-6 producers; schedules are Markov bursts, greedy and silent producers, withdrawn offers, stalls, resets at drawn cycles. A test samples one schedule; the errors live in the cycle in which one burst ends and another begins.")
D['C02']=("Queue reference for stream-to-FIFO-to-stream in one and two clock domains, plus combinational transfer laws for connect/attach/tap in both directions.","payload widths 1-32, depths 1-32, buffered/unbuffered/async FIFOs; edges of the two clocks interleave in drawn order. A fill to full, stall, drain to empty cycle is forced in a part of the runs. The FIFOs themselves are Amaranth's.")
D['C03']=("Expected beat list computed from table, start position, limit, byte order and width; each beat compared when accepted, markers, valid mask, stability while stalled, `done` exactly once and after the last beat, nothing for an empty request.","up to five starts per run with different positions/limits, starts while busy, position changed while busy, resets.")
D['C04']=("The list of beats (byte, first, last) of the whole packet list, compared per accepted beat over several starts; bounded completion.","mixed packet lengths including 1; starts right after power-on or reset, starts while busy.")
D['C05']=("Executable queue model with committed/uncommitted regions on both sides; all five outputs compared at every edge; final drain.","9 depth/width combinations (powers of two and not), every mix of the six request bits; the measure of states is (fill, uncommitted, unread, requests).")
D['C06']=("Strict line decoder (exact cycle counts) and bus handshake monitor; idle and driving indications compared with the decoded frame state; every accepted byte on the line once.","divisors 1-100, words of 1-8 bytes, producers that offer exactly at the frame boundary +-1 cycle.")
D['C07']=("A line generator with fractional bit times renders frames with faults; each delivered word must be the next unconsumed frame with exactly the flags that follow from its rendered levels; frames overlapped by a disturbance are 'may', frames a frame time after it are 'must'; overflow by acknowledge windows.","skew up to the sampling tolerance (computed so each nominal sampling point stays a cycle inside its bit), divisor changes, breaks, noise, truncation, resets in frames.")
D['C08']=("Transmitter: strict decoder with exact cycle counts.  Link: two real transceivers on two clocks whose edges are drawn with a skew inside tolerance; sent and received lists equal, no error flag.","5-9 data bits, all parity modes, divisor changes while idle.")
D['C09']=("SPI bit-level controller model with per-edge timing; word list in = word list reported; returned bits = word offered when the word began.","all modes and polarities, sizes 4-32 (also no powers of two), several words per selection, cut anywhere, clocks while deselected.")
D['C10']=("Same controller plus protocol model of command, response and data phases.","lengths short, exact, cut inside data, excess.")
D['C11']=("Register-file model; every register, strobe and read-back compared every cycle.","memory-backed, read-only, write-only and special registers; neighbouring and unknown addresses; aborts at any bit.")
D['C12']=("A strict peer records every edge with its cycle: number of pulses, levels, half periods, order of select and clock, sampled bits; multiplexer: real devices with one selected.","divisors 6-40, all modes, starts while busy, resets in transfers.")
D['C13']=("Protocol monitor over both open-drain lines (legal changes only, start/stop conditions, bits), operation log compared with the request log; busy and bounded completion after stretching ends.","stretch drawn per clock pulse, requests with changing inputs while busy, repeated starts; without stretching, clock inputs that are stuck or random.")
D['C14']=("Bit-level reference of a target decides for each clock period whether and what the target may drive; event strobes compared in order.  Pair runs use the real initiator and two real targets.","foreign/near/own addresses, start or stop forced at any bit.")
D['C15']=("Bus decoder splits the line into transactions, compared packet by packet; bus free afterwards within a bound.","gaps up to two byte times inside packets, refusing and stretching targets, buffer filling.")
D['C16']=("Word decoder on word clock/bit clock edges; transmitted frames equal to accepted ones or silence with underflow reported; levels compared with the accepted minus sent count; receiver against the transmitter or a codec model.","widths 8-32, standard and left-justified, word lengths with padding, jitter, skew, enables withdrawn.")
D['C17']=("Model of a MAX7219 chain (shift registers, latch at chip select) yields the register writes; init sequence then round-robin refresh with current digits; staleness bound one round.","1-4 modules, divisors, digits changing at any cycle, resets.")
D['C18']=("Pulse-length decoder in nanoseconds yields bits; compared with stored colours; latch time, done once.","1-20 LEDs, clocks 6-100 MHz, writes and starts during transmission.")
D['C19']=("Run-length reference with the 2^15-cycle interval: must change inside [interval, interval + synchroniser], must not change before; events alternate.","stable phases around the interval boundary, bounce bursts; long runs are skipped over quickly because plans are run-length coded.")
D['C20']=("Cycle-accurate countdown model.","load/reload/restart settings, starts in the completion cycle, zero values, resets.")
D['C21']=("Cycle-accurate models.","enable patterns with lengths around the half period and the divisor.")
D['C22']=("Cycle-accurate edge, delay and stretch models; synchroniser compared with the source delayed by counted destination edges.","clock edges of both domains drawn one by one, including simultaneous ones.")
D['C23']=("Bit-exact models, LFSR against its polynomial by independent Galois/Fibonacci arithmetic, no dead state.","all widths and directions offered by the constructors.")
D['C24']=("The harness records every observed value in every cycle; the stored window must be that history around the trigger.","pre-trigger 1..depth, enable patterns, early/repeated triggers, random read order.")
D['C25']=("Link-level reception (SPI bit stream, stream bytes, UART bits) fed into the real host-side parser; values and times equal to the recorded history.","widths not multiples of 8, cut read-outs at any bit, stalls, clock ratios, consumers that wait for valid.")
D['C26']=("Set/clear model of pending flags; IRQ = or(pending & enable) each cycle; registers through the bridge.","event in the acknowledge cycle, several sources, every trigger kind.")
D['C27']=("Byte-array model of the memory; acknowledge count = request count.","granularity 8/16/32, sizes not powers of two, back to back, withdrawn requests, idle strobes.")
D['C28']=("Two byte queues plus the strict line decoder and line generator of C06/C07; flags and events bounded by the contents.","overruns of either buffer, divisor changes when idle, bad frames between good ones.")
D['C29']=("Integer reference response from the coefficients that the filter object reports, with its own rounding rules re-implemented; same outputs for every strobe spacing; parallel = sequential.","impulses, full-scale extremes, noise, steps; orders 2-60; gaps from the minimum up.")
D['C30']=("Integer reference (zero stuffing, filter chain, decimation) compared sample by sample under stalls; bounded progress.","ratios up/down 1-8 incl. equal and coprime, consumers that wait for valid.")
D['C31']=("Integer convolution modulo 2^(2w) per mode; markers; stability while stalled; any number of multiplier slices.","taps 1-40, slices 1-N incl. uneven, negative taps, gaps between channels.")
D['C32']=("numpy FFT of sample*window (bit-exact quantised inputs) with bound 9 + stages LSB; exact bin order and count; independence from history by running several transforms.","sizes 4-64, windows replaced between transforms, strobe spacing 3+, resets in transforms.")
D['C33']=("Metamorphic: run A of another scenario is cut at a drawn cycle, all domains are reset, run B of that scenario is performed with its own oracle, which assumes a fresh core.","every scenario except those whose state legitimately lives in a memory (these are reset in their own checks).")
D['C36']=("Metamorphic: the scenario's oracle with the design moved to a domain of another name, while a decoy clock `sync` ticks at a drawn rate or stands still.","every scenario.")
D['C37']=("Tones through the simulated filter; the amplitude of what comes out is compared with the floating-point design (scipy) that the parameters name, evaluated at the tone's frequency.","DC to half the sample rate, several tones one after another, strobe gaps with noise between the strobes, a reset in noise before; low and high pass, both FIR designs, banks up to 3.")
D['C38']=("Metamorphic: two drawn runs of another property's scenario, performed at once on two cores in one design. Each run's own checks are the oracle and the first run's history must equal, event for event, the one the same run has on a core that is alone; a failure counts only if that run passes alone in a fresh process, so that a defect that has nothing to do with the neighbour is left to the property it belongs to.","every scenario, equal and different configurations; for the cores that compute tables at construction also configurations that differ in one parameter only; the cycles of the two are interleaved at relative speeds from 1:30 to 30:1.")
props = {json.loads(l)['id']: json.loads(l) for l in open('/verif/properties.jsonl')}
import dst.checks, pkgutil, importlib
for m in pkgutil.iter_modules(dst.checks.__path__): importlib.import_module('dst.checks.'+m.name)
from dst.core import SCENARIOS, META
out=[HEAD]
for p in sorted(props):
    if p not in META: continue
    t=props[p]['title']
    a,b=D.get(p,("TODO","TODO"))
    m=META[p]
    sc=', '.join(s.name for s in SCENARIOS[p])
    mod=sorted({type(s).__module__.split('.')[-1] for s in SCENARIOS[p]})
    out.append(f"### {p} {t}\n\n*Where:* `dst/checks/{mod[0]}.py`, scenarios {sc}.  *Oracle:* {a}\n\n*Explored:* {b}  {m['rule']}\n\n")
    if m['assumptions']: out.append("*Left open / assumed:* "+'; '.join(m['assumptions'])+".\n\n")
tail = open('/verif/tools/design_tail.md').read()
fx = [e for e in json.load(open('/verif/known_findings.json'))['findings']]
rows = []
for e in fx:
    w = e['what'].split(' ', 3) if e['status'] == 'fixed' else ['', 'property=' + e['property'], 'open', e['what']]
    rows.append(f"| {e['property']} | {w[2]} | {w[3]} |")
tail = tail.replace('@FIXES@', '\n'.join(rows))
bugs = ['| id | property | what it breaks | needs | quick check |', '|---|---|---|---|---|']
res = json.load(open('/verif/tools/plant_results.json')) if os.path.exists('/verif/tools/plant_results.json') else {}
for d in sorted(os.listdir('/verif/seeded')):
    f = f'/verif/seeded/{d}/meta.json'
    if os.path.exists(f):
        m = json.load(open(f))
        bugs.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {res.get(d, '?')} |")
tail = tail.replace('@BUGS@', '\n'.join(bugs))
tail = tail.replace('@MUT@', open('/verif/tools/mutation_summary.md').read().strip() if os.path.exists('/verif/tools/mutation_summary.md') else '')
out.append(tail)
open('/verif/DESIGN.md','w').write(''.join(out))
