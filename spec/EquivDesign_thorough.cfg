CONSTANTS Depth = 4
 Exps <- TExps
 Widths <- TWidths
SPECIFICATION Spec
INVARIANTS SingleValued ShapeOfDataset PowerLawBranch WindowBranch NormBranch
