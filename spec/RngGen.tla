------------------------------- MODULE RngGen -------------------------------
EXTENDS Rng
DShapes == {<<>>, <<2>>, <<0>>}
GShapes == {<<>>, <<0>>, <<1>>, <<2>>, <<3>>, <<5>>, <<2, 3>>, <<3, 1, 2>>, <<1, 4>>, <<7>>, <<0, 3>>, <<13>>}
=============================================================================
