------------------------------ MODULE MCCursor ------------------------------
EXTENDS Cursor
Op(o, n) == [o |-> o, n |-> n]
OpsAll == {Op("next", 1), Op("nid", 1), Op("chunk", 0), Op("chunk", 2), Op("chunk", 3), Op("buf", 2), Op("fe", 1), Op("efe", 2), Op("fold", 2),
           Op("skip", 0), Op("len", 0), Op("more", 0)}
OpsNoQuery == OpsAll \ {Op("len", 0), Op("more", 0)}
=============================================================================
