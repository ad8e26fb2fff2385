SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS NoWrongReply SameNamespaces Map Ids Statistics Quota Walks History Reload Restarts Rebuilt RebuiltIndex DataLog FileSizes Records Dirty Rights Waiters Mirrored Set_
PROPERTIES AppendOnly Isolated
