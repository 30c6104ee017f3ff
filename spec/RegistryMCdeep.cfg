SPECIFICATION Spec
CONSTANTS Depth = 4 Fs = {"f", "g"} Ss = {"ext2int", "printpf"} Ext = {"reserves", "iflims"} Emit = FALSE
INVARIANTS OnlyWhatWasRegistered NoDuplicatesUnlessAllowed OffUndoesOn RemoveUndoesAdd RemovesOne Emits
CHECK_DEADLOCK FALSE
