D = "lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp"
MOCK = '''
# Compiles the pattern alone (against mock.h) and runs it: a pattern that reports
# success has replaced its operator once, one that reports failure has not.
from decompmock import term


def outcome(cls, op, sizes, *operands):
    t = term(cls, {n: n for n in operands}, op, sizes)
    assert t is None or ", replaced" not in t, f"{op} of extents {sizes}: {t}"
    return t


'''

seed("C42-t-of-vector", "C42", D,
     [('''    } else if (*lhsRank < 2)
      rewriter.replaceOp(op, lhs);
    else {
      Value zero''', '''    } else if (*lhsRank == 2) {
      Value zero''')],
     "aten.t of a tensor of rank 0 or 1",
     "the pattern reports success without having replaced the operator, and is tried again and again",
     MOCK + '''
for sizes in ((2, 3), (2,), (), (2, 3, 4)):
    assert (outcome("DecomposeAtenTOp", "AtenTOp", sizes, "self") is None) == (len(sizes) > 2)
''')
seed("C42-diag-of-vector-twice", "C42", D,
     [('''          /*dim2=*/minusOne);
    } else if (*inRank == 2) {
      // 2D -> 1D: use diagonal with dim1=0, dim2=1''', '''          /*dim2=*/minusOne);
    }
    if (*inRank <= 2) {
      // 2D -> 1D: use diagonal with dim1=0, dim2=1''')],
     "aten.diag of a tensor of rank 1",
     "the operator is replaced by diag_embed, and then, freed, by diagonal as well",
     MOCK + '''
for sizes in ((2, 3), (2,), (2, 3, 4)):
    assert (outcome("DecomposeAtenDiagOp", "AtenDiagOp", sizes, "self", "diagonal") is None) == (len(sizes) > 2)
''')
seed("C42-atleast_1d-of-scalar", "C42", D,
     [('''      rewriter.replaceOpWithNewOp<AtenUnsqueezeOp>(op, opType, input, zero);
      return success();
    }

    rewriter.replaceOp(op, input);
    return success();''', '''      rewriter.replaceOpWithNewOp<AtenUnsqueezeOp>(op, opType, input, zero);
      return failure();
    }

    rewriter.replaceOp(op, input);
    return success();''')],
     "aten.atleast_1d of a tensor of rank 0",
     "the pattern reports failure after it has replaced the operator",
     MOCK + '''
for sizes in ((2, 3), (2,), ()):
    assert outcome("DecomposeAtenAtleast1dOp", "AtenAtleast1dOp", sizes, "self")
''')
