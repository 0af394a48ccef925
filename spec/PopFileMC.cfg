SPECIFICATION Spec
CONSTANT MaxOps = 3
INVARIANTS UniqueIndices CountsMatch OneMassPerMetallicity AppendKeeps RefusedKeeps ExportKeepsSource ChannelsAreOwn
CHECK_DEADLOCK FALSE
