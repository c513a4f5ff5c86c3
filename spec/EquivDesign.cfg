CONSTANTS Depth = 3
 Exps <- QExps
 Widths <- QWidths
SPECIFICATION Spec
INVARIANTS SingleValued ShapeOfDataset PowerLawBranch WindowBranch NormBranch
