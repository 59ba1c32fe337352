--------------------------- MODULE MCOperational ----------------------------
EXTENDS Operational
CONSTANT Size
MCRaws == RawsUpTo(Size)
=============================================================================
