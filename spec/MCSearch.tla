------------------------------ MODULE MCSearch ------------------------------
EXTENDS Search
CONSTANT Size
MCRaws == RawsUpTo(Size)
=============================================================================
