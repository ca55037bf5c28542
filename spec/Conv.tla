-------------------------------- MODULE Conv --------------------------------
(* Lossless little-endian bit packing, exhaustively at reduced word size W. *)
EXTENDS Integers, Sequences, TLC
CONSTANTS W, MaxLen
VARIABLES bytes, bits
ToBits(bs) == [p \in 1..(W * Len(bs)) |-> (bs[((p - 1) \div W) + 1] \div 2^((p - 1) % W)) % 2]
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
ToBytes(b) == [i \in 1..(Len(b) \div W) |-> Sum([j \in 1..W |-> b[W * (i - 1) + j] * 2^(j - 1)])]
Init == bytes = <<>> /\ bits = <<>>
\* appending a word appends its bits: the streaming converter
Next == /\ Len(bytes) < MaxLen
        /\ \E w \in 0..(2^W - 1) : bytes' = Append(bytes, w) /\ bits' = bits \o ToBits(<<w>>)
Spec == Init /\ [][Next]_<<bytes, bits>>
Lossless == ToBits(bytes) = bits /\ ToBytes(bits) = bytes
=============================================================================
