CONSTANTS Depth = 4
SPECIFICATION Spec
INVARIANTS HistoryFree Uncached Free Same
PROPERTIES Isolated NodesGrow
