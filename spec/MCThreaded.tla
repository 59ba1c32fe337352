----------------------------- MODULE MCThreaded -----------------------------
EXTENDS Threaded
CONSTANT Size
MCRaws == RawsUpTo(Size)
(* only those where a first layer with several nodes leads to several tasks *)
MCRawsExact == {r \in RawsOf(Size) : Len(r.order[1]) > 1}
=============================================================================
