----------------------------- MODULE MCTogether ------------------------------
EXTENDS Together
CONSTANT Size
MCRaws == RawsUpTo(Size)
(* few decisive ones *)
MCSome == {Raw(2, {}, {}), Raw(2, {<<0, 1>>}, {<<0, 1>>}), Raw(3, {<<0, 1>>}, {<<0, 2>>})}
=============================================================================
