"""Functional stand-in for amaranth-soc 0.1 (not installable here): buses are records, and the memory map,
the CSR multiplexer, the Wishbone/CSR bridge, the Wishbone decoder and arbiter work as the library documents them,
so that amlib's own logic can be driven through a bus."""
