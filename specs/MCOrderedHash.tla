--------------------------- MODULE MCOrderedHash ----------------------------
EXTENDS OrderedHash
CONSTANT MaxId
Bound == nid <= MaxId + 1
MCKeys == {<<0, 1>>, <<1, 1>>, <<1>>}
=============================================================================
