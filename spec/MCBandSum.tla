----------------------------- MODULE MCBandSum -----------------------------
EXTENDS BandSum
InMost(p, b) == (p + b) % 3 # 0
ByPixel(p, b) == p % 2
=============================================================================
