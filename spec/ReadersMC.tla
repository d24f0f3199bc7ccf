------------------------------ MODULE ReadersMC ------------------------------
\* Two processes that read three or four nodes
EXTENDS Readers, IOUtils
Small == IOEnv.SIZE = "3"
TwoProcs == 1..2
Four == IF Small THEN <<1, 1, 1>> ELSE <<1, 2, 1, 1>>
Their == IF Small THEN <<<<>>, <<>>, <<1, 2>>>> ELSE <<<<>>, <<1, 1>>, <<>>, <<2, 3>>>>
=============================================================================
