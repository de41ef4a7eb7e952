"""Minimal stand-in for the amaranth_soc package, which cannot be installed here.

It offers just what amlib uses, with the same signals and bus behaviour: Wishbone interface records
and address decoder, CSR elements, CSR multiplexer and the Wishbone-to-CSR bridge.  It belongs to
the simulator (the SoC interconnect around the code under test), not to the code under test.
"""
