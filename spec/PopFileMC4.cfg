SPECIFICATION Spec
CONSTANT MaxOps = 4
INVARIANTS UniqueIndices CountsMatch OneMassPerMetallicity AppendKeeps RefusedKeeps ExportKeepsSource ChannelsAreOwn
CHECK_DEADLOCK FALSE
