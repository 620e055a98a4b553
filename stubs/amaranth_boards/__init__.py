"""Stand-in for ``amaranth_boards``: names only; no board is built here."""
arty_a7 = cmod_s7 = ice40_hx8k_b_evn = icebreaker = icestick = None
