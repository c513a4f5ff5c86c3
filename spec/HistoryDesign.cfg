CONSTANTS Depth = 0
SPECIFICATION Spec
INVARIANTS HistoryFree Uncached Free Same
PROPERTIES Isolated NodesGrow
