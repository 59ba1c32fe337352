------------------------------ MODULE MCSweep -------------------------------
EXTENDS Sweep
CONSTANT Size
MCRaws == {r \in RawsUpTo(Size) : Len(r.adj) < Size \/ r.adj = [j \in 1 .. Size |-> <<>>]}
=============================================================================
