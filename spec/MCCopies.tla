------------------------------ MODULE MCCopies -------------------------------
EXTENDS Copies
CONSTANT Size
MCRaws == RawsUpTo(Size)
=============================================================================
