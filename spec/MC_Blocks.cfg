SPECIFICATION Spec
CONSTANTS NF = 3  K = 1
INVARIANTS Partition BlockL1 BlockGr FullEqualsBlocks OtherBlocks Gen
CHECK_DEADLOCK FALSE
