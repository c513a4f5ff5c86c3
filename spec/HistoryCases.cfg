CONSTANTS Depth = 3
SPECIFICATION Spec
INVARIANTS HistoryFree Uncached Free Same
PROPERTIES Isolated NodesGrow
